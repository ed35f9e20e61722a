"""C13: parsing of strings.

- grammar: every string of the documented grammar built from tables of
  tokens; what it denotes is known by construction and compared exactly.
- short: every string over a small alphabet up to a length.
- edits: every single (thorough: double) edit of valid strings.

For the last two, an independent recognizer of the documented grammar
decides: documented strings must give the values they denote, strings that
are not even loosely of this form must be refused with ValueError, and the
rest (spaces in unusual places, redundant parentheses, etc.) is unspecified:
any value, or a refusal.
"""
import itertools
import json
import re
from decimal import Decimal

from uncertainties import ufloat_fromstr, UFloat

from mc.num import same
from mc.run import require, Mismatch

ID = 'C13'
LEVEL = 'model_checking'
RULE = ('a state is a distinct string; a transition is one call of the '
        'parser; a trace is one call whose outcome (values or refusal) was '
        'compared with the reference')
ASSUMPTIONS = ['spaces inside of numbers with uncertainty elsewhere than '
               'around the main symbols, redundant parentheses and float '
               'spellings of Python (infinity, underscores) are unspecified',
               'NaN or infinity alone (implicit uncertainty) is unspecified']

SUP = str.maketrans('⁺⁻⁰¹²³⁴⁵⁶⁷⁸⁹', '+-0123456789')
INF = float('inf')


class Value(object):
    """Exact value of a token: Decimal, or float for NaN and infinity."""


def value_of(text, exp=0):
    sign = -1 if text.startswith('-') else 1
    body = text.lstrip('+-').lower()
    if body in ('nan', 'inf'):
        return sign*float(body)
    d = Decimal(body.rstrip('.') if not body.startswith('.') else '0'+body)
    d = d.scaleb(exp) if d else d
    return float('%s%s' % ('-' if sign < 0 else '', d))


def exp_of(text):
    if not text:
        return 0
    text = text.strip()
    if text[0] in 'eE':
        return int(text[1:])
    return int(text.partition('10')[2].translate(SUP))


# Reference recognizer

PLAIN = r'(?:\d+\.?\d*|\.\d+)'
SPECIAL = r'(?:nan|NAN|inf|INF)'
EXP = r'(?:[eE][+-]?\d+|[ ]*×[ ]*10[⁺⁻]?[⁰¹²³⁴⁵⁶⁷⁸⁹]+)'
ANY = r'(?:%s|%s)' % (PLAIN, SPECIAL)
PM = re.compile(r'([+-]?%s)(%s)?[ ]*(?:\+/-|±)[ ]*(%s)(%s)?\Z' % (
    ANY, EXP, ANY, EXP))
SHORT = re.compile(r'([+-]?%s)(?:\((%s)\))?(%s)?\Z' % (ANY, ANY, EXP))
GLOBAL = re.compile(r'\((.*)\)(%s)\Z' % EXP)
MAXEXP = 5000


def simple(t, exp):
    """Value of a notation with no global exponent, or None."""
    m = PM.match(t)
    if m:
        n, e1, s, e2 = m.groups()
        if (e1 and n[-1].lower() in 'nf') or (e2 and s[-1].lower() in 'nf'):
            return 'free'
        return (value_of(n, exp_of(e1)+exp), value_of(s, exp_of(e2)+exp))
    m = SHORT.match(t)
    if m:
        n, s, e = m.groups()
        exp += exp_of(e)
        decimals = len(n.partition('.')[2])
        if s is None:
            s = '1'
            if not n.lstrip('+-')[0] in '0123456789.':
                return 'free'
        if not ('.' in s or not s[0].isdigit()):
            return value_of(n, exp), value_of(s, exp-decimals)
        return value_of(n, exp), value_of(s, exp)
    return None


def no_outer(t):
    r = simple(t, 0)
    if r is None:
        m = GLOBAL.match(t)
        if m:
            r = simple(m.group(1), exp_of(m.group(2)))
    return r


def strict(t):
    t = t.strip()
    r = no_outer(t)
    if r is None and t.startswith('(') and t.endswith(')'):
        r = no_outer(t[1:-1])
    return r


LOOSE_NUM = r'[+-]?(?:\d[\d_]*\.?[\d_]*|\.\d[\d_]*|nan|inf|infinity)'
LOOSE_EXP = r'(?:(?:e[+-]?\d[\d_]*|×10[+-]?\d[\d_]*){1,2})'
LOOSE = re.compile(r'''
    (?:{N}{E}?(?:\+/-|±){N}{E}? | {N}(?:\({N}\))?{E}?) \Z'''.format(
        N=LOOSE_NUM, E=LOOSE_EXP), re.VERBOSE)
LOOSE_GLOBAL = re.compile(r'(.*){E}\Z'.format(E=LOOSE_EXP))


def loosely(t):
    """Could the string be considered as one of the documented notations?"""
    t = re.sub(r'\s*×\s*10\s*', '×10', t)
    t = re.sub(r'(?<![0-9.])\s+|\s+(?![0-9.])', '', t.strip())
    if re.search(r'\s', t):
        return False
    t = t.translate(SUP).lower()
    seen = [t]
    while seen:
        t = seen.pop()
        if LOOSE.match(t):
            return True
        if t.startswith('(') and t.endswith(')'):
            seen.append(t[1:-1])
        if t.startswith('('):
            m = LOOSE_GLOBAL.match(t)
            if m:
                seen.append(m.group(1))
    return False


def classify(t):
    r = strict(t)
    if r is not None:
        return r
    return 'free' if loosely(t) else 'refused'


# Checks

def compare(x, expected, text):
    require(isinstance(x, UFloat) and set(x.derivatives) == {x}, 'not a variable')
    n, s = expected
    require(type(x.nominal_value) is float and same(x.nominal_value, n),
            'nominal value of %r: %r instead of %r', text, x.nominal_value, n)
    require(same(float(x.std_dev), s), 'deviation of %r: %r instead of %r',
            text, float(x.std_dev), s)


def check_valid(case):
    _, text, n, s = case
    expected = float(n), float(s)
    first = ufloat_fromstr(text)
    compare(first, expected, text)
    first.std_dev = 7  # No impact on the numbers parsed afterwards
    again = ufloat_fromstr(text)
    require(again is not first, 'not a new variable')
    compare(again, expected, text)
    x = ufloat_fromstr(text, 'a tag')
    compare(x, expected, text)
    require(x.tag == 'a tag', 'tag')
    x = ufloat_fromstr(representation=text, tag='t')
    require(x.tag == 't', 'tag by name')
    require(ufloat_fromstr(text).tag is None, 'no tag')
    return 'documented notation'


def check_any(case):
    _, text = case
    expected = classify(text)
    try:
        x = ufloat_fromstr(text)
    except ValueError:
        require(expected in ('free', 'refused'), '%r is refused instead of %r',
                text, expected)
        return 'refused' if expected == 'refused' else 'unspecified'
    except Exception as exc:
        require(expected == 'free' and type(exc).__name__ == 'NegativeStdDev',
                '%s instead of ValueError for %r', type(exc).__name__, text)
        return 'unspecified'
    require(expected != 'refused', '%r is parsed as %r instead of being '
            'refused', text, x)
    if expected == 'free':
        return 'unspecified'
    compare(x, expected, text)
    return 'documented notation'


# Grammar

SIGNS = ['', '+', '-']
MAINS = ['1', '12', '0', '1.', '1.2', '12.345', '.5', '0.0', '007.50', 'nan',
         'NAN', 'inf', 'INF', '123456789012345678901234567890', '0.1',
         '3.00000000000000000000001']
UNCS = ['0', '2', '0.3', '.4', '5.', 'nan', 'NAN', 'inf', 'INF',
        '12.345678901234567890123', '0.0', '150']
EXPS = ['', 'e5', 'E-12', 'e+02', 'e0', '×10⁵', ' × 10⁻¹²', '×10⁺²', 'e-400',
        'e400', 'e22', 'e-23', '×10⁰', ' ×10³']
SEPS = ['+/-', '±', ' +/- ', ' ± ', '+/- ', '  ±']
OUTERS = ['%s', '(%s)', '  %s\t', '\n(%s) ']


def fjson(x):
    return repr(x)


def pm_value(sign, main, e1, unc, e2, e):
    return (value_of(sign+main, exp_of(e1)+exp_of(e)),
            value_of(unc, exp_of(e2)+exp_of(e)))


def run_pm(task, ctx):
    _, tier, main = task
    uncs = UNCS
    for sign, unc, sep, outer in itertools.product(SIGNS, uncs, SEPS, OUTERS):
        if tier == 'quick' and outer != '%s' and SEPS.index(sep) > 1:
            continue
        for e1, e2 in itertools.product(EXPS, EXPS):
            if tier == 'quick' and (outer != '%s' or sep != '+/-') and (
                    EXPS.index(e1) > 6 or EXPS.index(e2) > 6):
                continue
            if main[0] in 'nNiI' and e1 or unc[0] in 'nNiI' and e2:
                continue
            n, s = pm_value(sign, main, e1, unc, e2, '')
            yield ['valid', outer % (sign+main+e1+sep+unc+e2), fjson(n),
                   fjson(s)]


def run_factored(task, ctx):
    _, tier, main = task
    inner = ['', 'e5', 'E-12', '×10⁻³'] if tier == 'quick' else EXPS
    for sign, unc, sep, outer, e in itertools.product(
            SIGNS, UNCS, SEPS, OUTERS, EXPS[1:]):
        if tier == 'quick' and outer != '%s' and SEPS.index(sep) > 1:
            continue
        for e1, e2 in itertools.product(inner, inner):
            if main[0] in 'nNiI' and e1 or unc[0] in 'nNiI' and e2:
                continue
            n, s = pm_value(sign, main, e1, unc, e2, e)
            yield ['valid', outer % ('('+sign+main+e1+sep+unc+e2+')'+e),
                   fjson(n), fjson(s)]


SHORTHAND_UNCS = [None, '0', '1', '2', '15', '150', '078', '123456789012345',
                  '0.3', '.4', '5.', '3.00', '12.5', '0.', 'nan', 'NAN',
                  'inf', 'INF', '99999999999999999999999']


def run_shorthand(task, ctx):
    _, tier, main = task
    for sign, unc, e, outer in itertools.product(SIGNS, SHORTHAND_UNCS, EXPS,
                                                 OUTERS):
        if unc is None and main[0] in 'nNiI':
            continue
        text = sign+main+('' if unc is None else '(%s)' % unc)+e
        for g in [''] + EXPS[1:]:
            exp = exp_of(e)+exp_of(g)
            decimals = len(main.partition('.')[2])
            u = '1' if unc is None else unc
            s = value_of(u, exp if '.' in u or not u[0].isdigit()
                         else exp-decimals)
            full = text if not g else '('+text+')'+g
            yield ['valid', outer % full, fjson(value_of(sign+main, exp)),
                   fjson(s)]


ALPHABETS = [('1.()e-', 6, 7), ('2.(±)e', 6, 7), ('1+/-.', 7, 8),
             ('1(nae)', 6, 7), ('3 ×10⁵(±', 6, 6), ('0 .(-)', 6, 7)]


def run_short(task, ctx):
    _, alphabet, length, prefix = task
    for tail in itertools.product(alphabet, repeat=length-len(prefix)):
        yield ['any', prefix+''.join(tail)]


BASES = ['12.3e10+/-5e3', '(-3.1415 +/- 0.0001)e+02', '12.3e10 ± 5e3',
         '(12.3 ± 5.0) × 10⁻¹²', '12.3 ± 5e3', '(-3.1 +/- 1e-4)e+200',
         '(1e-20 +/- 3)e100', '0.29', '31.', '-31.', '31', '-3.1e10',
         '-1.23(3.4)', '-1.34(5)', '1(6)', '3(4.2)', '-9(2)', '123(1.2)',
         '12.345(15)', '-12.3456(78)e-6', '12.3(0.4)e-5', '169.0(7)',
         '.123(4)', '.1(.4)', '12.3(nan)', '12.3(NAN)', '3±nan', 'nan+/-1',
         'inf(inf)', '-inf+/-nan', '(1.2+/-0.3)', '((1.2+/-0.3)e5)',
         '(1.2(3))', '(1.2(3)×10⁵)', '1.2(3)×10⁵', '1.2×10⁵±3×10⁻¹',
         '(1.2×10⁵±3)×10²', '+1.2(3)', '+1.0+/-.5', '1.(2.)', '(1.2(3))e5',
         '12.3×10⁺²', '5(nan)e3', 'NAN(INF)', '1 +/- 2 ']
EDITS = '05.+-()eE/±×⁵⁻ nai,xI_%\n\t²１'


def edits(text, alphabet=EDITS):
    for i in range(len(text)+1):
        for c in alphabet:
            yield text[:i]+c+text[i:]
            if i < len(text):
                yield text[:i]+c+text[i+1:]
        if i < len(text):
            yield text[:i]+text[i+1:]
            yield text[:i]+text[i]+text[i:]
            yield text[:i]
            yield text[i:]
        if i+1 < len(text):
            yield text[:i]+text[i+1]+text[i]+text[i+2:]


def run_edits(task, ctx):
    _, tier, base = task
    seen = {base}
    yield ['any', base]
    for t in edits(base):
        if t in seen:
            continue
        seen.add(t)
        yield ['any', t]
    if tier == 'thorough':
        for t in list(seen):
            for u in edits(t, '0.+-()e± ×n'):
                if u not in seen:
                    seen.add(u)
                    yield ['any', u]


OTHER = ['', ' ', '()', '(', ')', '+/-', '±', 'e5', '.', '-', '+', 'abc',
         '1+/-', '+/-1', '1±', '±1', '1()', '(1', '1)', '1.2.3', '1..2',
         '1.2(3', '1.2 3', '1,2', '1.2(3)(4)', '1.2(3)4', '1.2(3)e',
         '1.2(3)e5.0', '1.2e5.0', '1.2(-3)', '1.2+/-0.3+/-0.4', '1.2+-0.3',
         '1.2+\\-0.3', '1.2e', '(1.2+/-0.3', '1.2+/-0.3)', '(1.2+/-0.3)e',
         '(1.2+/-0.3)5', '(1.2+/-0.3)e5e5', '(1.2+/-0.3)×', '1.2(3)×10',
         '(1.2+/-0.3)×10', '0x10', '1j', '1.2+/-0.3 m', 'None',
         '1.2+/-0.3e', '1.2e+/-0.3', '--1.2(3)', '+-1.2(3)', '- 1.2(3)a',
         '1.2(3a)', '1.2(3 4)', '1.2(3%)', '1.2(3)%', '12(3))', '((1.2(3)',
         '1.2((3))', '1.2{3}', '1.2[3]', '1.2(3)e5 e', '<1.2+/-0.3>',
         '1.2+/-', '1.2(.)', '.(3)', '.+/-1', '1+/-.', '1(.)', '()1',
         '1.2(+/-3)', '1.2(nan', '1.2(na)', 'na(3)', 'nan(', 'in', 'i',
         '1.2(3)E', '(1.2(3))e', '(1.2(3))E+', '(1+/-2)e+', '(1+/-2)e-',
         '1(2)e+', '1(2)×10⁻', '(1±2)×10⁺', '1⁵', '1±2⁵', '1.²', '²', '1.2(³)']


def run_other(task, ctx):
    for t in OTHER:
        yield ['refusal', t]
        yield ['refusal', ' '+t+'\t']
        yield ['any', t]


def check_refusal(case):
    _, text = case
    try:
        x = ufloat_fromstr(text)
    except ValueError:
        return 'refused'
    raise Mismatch('%r is parsed as %r instead of being refused' % (text, x))


RUN = {'pm': run_pm, 'factored': run_factored, 'shorthand': run_shorthand,
       'short': run_short, 'edits': run_edits, 'other': run_other}
CHECK = {'valid': check_valid, 'any': check_any, 'refusal': check_refusal}


def tasks(tier):
    out = [[k, tier, m] for k in ('pm', 'factored', 'shorthand')
           for m in MAINS]
    for alphabet, quick, thorough in ALPHABETS:
        for n in range(0, (quick if tier == 'quick' else thorough)+1):
            if n < 4:
                out.append(['short', alphabet, n, ''])
            else:
                out += [['short', alphabet, n, a+b] for a in alphabet
                        for b in alphabet]
    out += [['edits', tier, b] for b in BASES]
    out.append(['other'])
    return out


def run_task(task, ctx):
    case = None
    for case in RUN[task[0]](task, ctx):
        with ctx.case(case):
            ctx.outcome(CHECK[case[0]](case))
        ctx.state(case[1])
        ctx.traces += 1
        ctx.transitions += 4 if case[0] == 'valid' else 1
        if ctx.full:
            return
    if case is not None:
        ctx.sample(case)


def replay(case, ctx):
    CHECK[case[0]](case)
