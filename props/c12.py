"""C12: printed numbers can be parsed back.

- repr: every pair of a table of floats (all kinds and magnitudes): the parsed
  values are identical.
- format: every value of the grids of C11 (and special ones) in every
  parsable format: the parsed values are those displayed, which are read from
  the output independently, and close to the original ones.
"""
import itertools
import json
import math
import re
from decimal import Decimal

from uncertainties import ufloat, ufloat_fromstr

from mc.fmtref import Spec, Invalid, decide, exact, finite, ULPS, TINY
from mc.num import same
from mc.run import require
from props.c11 import (fmt, fjson, V_MANTISSAS, S_MANTISSAS, SPECIAL_V,
                       SPECIAL_S, LAYOUT_VALUES)

ID = 'C12'
LEVEL = 'model_checking'
RULE = ('a state is a distinct (value, deviation, specification); a '
        'transition is one formatting and parsing; a trace is one round trip '
        'whose values were compared with the original and displayed ones')
ASSUMPTIONS = ['zero padding of NaN and infinity is not parsable (as with '
               'floats)', 'displayed numbers are parsed within 2 ulps']
INF = float('inf')

FLOATS = [0.0, -0.0, 1.0, -1.0, 3.0, 0.1, 0.3, 1/3, 2/3, 1e15, 1e16, 1e17,
          123456789012345680.0, 1.5e22, 1e22, 1e23, 9.999999999999999e22,
          1e-4, 1e-5, 9.999e-5, 1.2345678901234567, math.pi, 0.1+0.2, 2.0**-52,
          1-2.0**-53, 1+2.0**-52, 5e-324, 1e-323, 1.23e-320,
          2.2250738585072014e-308, 2.225073858507201e-308,
          1.7976931348623157e308, 8.98846567431158e307, 1e308, 2.0**63,
          2.0**53+2, 4503599627370497.5, 12.34, 100.0, 1e100, 7e-100,
          6.02214076e23, 1.602176634e-19, INF, float('nan')]


def extended(tier):
    out = list(FLOATS)
    if tier == 'thorough':
        for k in range(-1074, 1024, 25):
            out += [2.0**k, math.nextafter(2.0**k, INF)*1.3
                    if k > -1070 else 2.0**k]
        for k in range(-300, 308, 12):
            out += [10.0**k, 3.3*10.0**k]
    return out


def check_repr(case):
    v, s, kind = case[1:]
    v, s = float(v), float(s)
    x = ufloat(v, s)
    if kind == 'result':
        x = x*1.0
    elif kind == 'tagged result':
        x = 1.0*ufloat(v, s, 'tag')
    elif kind == 'padded':
        pass
    n, d = x.nominal_value, float(x.std_dev)
    text = repr(x)
    if kind == 'padded':
        text = '  '+text+'\t'
    y = ufloat_fromstr(text)
    require(same(y.nominal_value, n) or n == 0 == y.nominal_value
            and kind != 'variable', 'nominal value %r instead of %r (%s)',
            y.nominal_value, n, text)
    require(same(float(y.std_dev), d), 'standard deviation %r instead of %r '
            '(%s)', float(y.std_dev), d, text)
    require(y.tag is None and x is not y, 'parsed number')
    return 'repr '+kind


def run_repr(task, ctx):
    _, tier, part = task
    values = extended(tier)
    for i, v in enumerate(values):
        if i % 8 != part:
            continue
        for sign, s, kind in itertools.product(
                [1, -1], values, ['variable', 'result', 'tagged result',
                                  'padded']):
            if s < 0 or math.copysign(1, s) < 0:
                continue
            yield ['repr', fjson(sign*v), fjson(s), kind]


########################################
# Formats

SUPERSCRIPTS = {ord(a): b for a, b in zip('⁺⁻⁰¹²³⁴⁵⁶⁷⁸⁹', '+-0123456789')}
EXP = r'(?:[eE]([+-]\d+)|×10([⁺⁻⁰¹²³⁴⁵⁶⁷⁸⁹]+))?'
NUM = r'([+-]?(?:\d+\.?\d*|nan|NAN|inf|INF))'
SHORT = re.compile(NUM+r'\(([^()]+)\)'+EXP+r'\Z')
PART = re.compile(r'\s*'+NUM+EXP+r'\s*\Z')
GROUP = re.compile(r'\((.*)\)'+EXP+r'\Z')


def power(e, sup):
    if e:
        return int(e)
    return int(sup.translate(SUPERSCRIPTS)) if sup else 0


def number(text, exp):
    """(value, unit of the last digit)"""
    if text.lstrip('+-').lower() in ('nan', 'inf'):
        return float(text), Decimal(0)
    d = Decimal(text.rstrip('.') if text.endswith('.') else text)
    return d.scaleb(exp), Decimal(1).scaleb(
        -len(text.partition('.')[2])+exp)


def displayed(out, shorthand):
    out = out.strip()
    if shorthand:
        m = SHORT.match(out)
        require(m, 'not a shorthand notation: %r', out)
        main, unc, e, sup = m.groups()
        exp = power(e, sup)
        nom = number(main, exp)
        if '.' in unc or not unc[0].isdigit():
            return nom, number(unc, exp)
        unit = nom[1]
        if not unit:
            unit = Decimal(1).scaleb(exp)   # NaN or infinite nominal value
        return nom, (Decimal(unc)*unit, unit)
    exp = 0
    m = GROUP.match(out)
    if m:
        out = m.group(1)
        exp = power(m.group(2), m.group(3))
    parts = re.split(r'\+/-|±', out)
    require(len(parts) == 2, 'not two parts: %r', out)
    result = []
    for p in parts:
        m = PART.match(p)
        require(m, 'not a number: %r', p)
        result.append(number(m.group(1), exp+power(m.group(2), m.group(3))))
    return result


def equals(parsed, shown):
    if isinstance(shown, float):
        return same(parsed, shown) or parsed != parsed and shown != shown
    return finite(parsed) and abs(Decimal(parsed)-shown) <= abs(
        shown)*Decimal('4.5e-16')+TINY or (
            abs(parsed) == INF and abs(shown) > Decimal('1.797e308'))


def check_format(case):
    fields, v, s = case[1:4]
    v, s = float(v), float(s)
    spec = Spec(**fields)
    x = ufloat(v, s)
    out = fmt(x, str(spec), case[4] if len(case) > 4 else 'format')
    (nom, nom_unit), (unc, unc_unit) = displayed(out, 'S' in spec.options)
    y = ufloat_fromstr(out)
    require(equals(y.nominal_value, nom), '%r is parsed as %r', out, y)
    require(equals(float(y.std_dev), unc), '%r is parsed as %r', out, y)
    # Half a unit of the last displayed digit
    for parsed, value, unit in ((y.nominal_value, v, nom_unit),
                                (float(y.std_dev), s, unc_unit)):
        if not finite(value):
            require(same(parsed, value), '%r from %r instead of %r', parsed,
                    out, value)
            continue
        if abs(parsed) == INF:
            continue
        slack = abs(Decimal(value))*ULPS+TINY
        limit = unit/2
        if value is s and spec.prec is None and limit:
            # Particle Data Group: 950-999 are shown as 1000
            top = Decimal(1).scaleb(Decimal(s).adjusted()+1)
            if Decimal(s) >= top*Decimal('0.949'):
                limit = max(limit, top-Decimal(s))
        general = spec.type in ('', 'g', 'G') and (s == 0 or not finite(s)
                                                  or not finite(v))
        if general:
            # 6, 12 or the given number of significant digits
            p = (12 if value is s and 'S' in spec.options and not spec.type
                 and spec.prec is None else
                 17 if spec.prec is None and not spec.type else
                 6 if spec.prec is None else spec.prec or 1)
            limit = Decimal(1).scaleb(Decimal(value).adjusted()+1-p)/2 if (
                value) else 0
        require(abs(Decimal(parsed)-Decimal(value)) <= limit+slack,
                '%r parsed from %r is too far from %r', parsed, out, value)
    return 'shorthand' if 'S' in spec.options else 'plus-minus'


PRECS = [(None, ''), (1, 'u'), (2, 'u'), (5, 'u'), (0, ''), (2, ''), (7, '')]
TYPES = ['', 'e', 'f', 'g', 'E', 'F', 'G']
OPTIONS = ['', 'S', 'P', 'p', 'SP', 'Pp']
LAYOUTS = [('', '', '', ''), ('', '+', '', ''), ('', ' ', '', ''),
           ('', '', '', '1'), ('<', '', '', '12'), ('>', '+', '', '15'),
           ('^', ' ', '', '20'), ('', '', '0', '12'), ('', '+', '0', '18'),
           ('<', '-', '0', '9')]


def specs(tier, special):
    for (prec, u), t, o, (a, sign, zero, width) in itertools.product(
            PRECS, TYPES, OPTIONS, LAYOUTS):
        if zero and special:
            continue
        if tier == 'quick' and not special and (
                t in 'EFG' and t and (o or width)
                or o in ('SP', 'Pp', 'p') and prec not in (None, 2)):
            continue
        yield dict(prec=prec, u=u, type=t, options=o, align=a, sign=sign,
                   zero=zero, width=width)


def run_values(task, ctx):
    _, tier, ve, ses, vm = task
    v = float('%se%d' % (vm, ve))
    layouts = list(specs(tier, False))
    mantissas = S_MANTISSAS if tier == 'thorough' else [
        '1', '1.5', '3.549', '3.55', '9.499', '9.96']
    for sm, se in itertools.product(mantissas, ses):
        s = float('%se%d' % (sm, ve+se))
        for fields in layouts:
            if fields['type'] in ('f', 'F') and abs(ve+se) > 40:
                continue
            yield ['format', fields, v, s]


def run_special(task, ctx):
    _, tier, v = task
    v = float(v)
    pairs = [(v, s) for s in SPECIAL_S] + [
        p for p in LAYOUT_VALUES if same(p[0], v)]
    for v, s in pairs:
        if 0 < s < abs(v)*1e-290 and abs(v) < INF:
            continue
        special = not (finite(v) and finite(s))
        for fields in specs(tier, special):
            yield ['format', fields, fjson(v), fjson(s)]
        yield ['format', {}, fjson(v), fjson(s), 'str']


RUN = {'repr': run_repr, 'values': run_values, 'special': run_special}
CHECK = {'repr': check_repr, 'format': check_format}


def tasks(tier):
    exponents = [-12, -3, 0, 2, 6]
    ses = [-12, -5, -2, -1, 0, 2]
    if tier == 'thorough':
        exponents = [-290, -120, -20, -9, -5, -4, -3, -2, -1, 0, 1, 2, 3, 4, 5,
                     6, 9, 15, 33, 140, 290]
        ses = [-14, -9, -6, -5, -4, -3, -2, -1, 0, 1, 2, 4, 8]
    out = [['values', tier, e, ses, m] for e in exponents for m in V_MANTISSAS]
    specials = sorted(set(map(fjson, SPECIAL_V+[p[0] for p in LAYOUT_VALUES])),
                      key=str)
    out += [['special', tier, v] for v in specials]
    out += [['repr', tier, p] for p in range(8)]
    return out


def run_task(task, ctx):
    case = None
    for case in RUN[task[0]](task, ctx):
        with ctx.case(case):
            ctx.outcome(CHECK[case[0]](case))
        ctx.state(json.dumps(case))
        ctx.traces += 1
        ctx.transitions += 1
        if ctx.full:
            return
    if case is not None:
        ctx.sample(case)


def replay(case, ctx):
    CHECK[case[0]](case)
