"""C11: formatting displays both values correctly rounded and aligned.

- values: every (nominal value, standard deviation) of mantissa/exponent
  grids, for every precision, u mode and presentation type, in every notation.
- layout: every fill, alignment, sign, zero, width, comma, precision, u, type
  and option combination, for values of every kind.
- special: NaN, infinities, zeros and extreme floats.
- invalid: all short specifications outside the documented grammar.

The expected string is calculated from exact decimal values.
"""
import itertools
import json
import re

from uncertainties import core, ufloat

from mc.fmtref import Spec, Invalid, mismatch
from mc.run import require

ID = 'C11'
LEVEL = 'model_checking'
RULE = ('a state is a distinct (value, deviation, specification); a '
        'transition is one formatting; a trace is one comparison with the '
        'string calculated from exact decimal values')
ASSUMPTIONS = ['values closer than about 4 ulps to a rounding tie or to a '
               'threshold may go either way',
               'the sign option and zero padding of LaTeX NaN and infinity, '
               'and the = alignment, are left unspecified',
               'nominal values more than 1e290 times larger than their '
               'uncertainty are not covered',
               'more than 15 significant digits are not covered',
               'percentages of values above 1e306 are not covered']
INF = float('inf')
NAN = float('nan')

V_MANTISSAS = ['0', '1', '1.2345678901', '9.5', '-9.996', '2.5', '-4.44445',
               '99.95']
S_MANTISSAS = ['1', '1.5', '2.25', '3.54', '3.549', '3.55', '5', '9.49',
               '9.499', '9.5', '9.94', '9.951', '9.96', '1.04999']
PRECISIONS = [None, 0, 1, 2, 3, 6, 15]
TYPES = ['', 'e', 'E', 'f', 'F', 'g', 'G', '%']
NOTATIONS = ['', 'S', 'P', 'L', 'p', 'w', 'SL', 'SP']


def fmt(x, spec, how):
    if how == 'str':
        return str(x)
    if how == 'method':
        return x.format(spec)
    if how == 'template':
        return ('{:%s}' % spec).format(x)
    return format(x, spec)


def check_format(case):
    fields, v, s = case[1:4]
    v, s = float(v), float(s)
    spec = Spec(**fields)
    how = case[4] if len(case) > 4 else 'format'
    x = ufloat(v, s)
    text = str(spec)
    try:
        out = fmt(x, text, how)
    except ValueError as exc:
        try:
            mismatch(spec, v, s, '')
        except Invalid:
            return 'refused'
        require(False, '%r raises %r', text, exc)
    try:
        error = mismatch(spec, v, s, out)
    except Invalid:
        require(False, '%r gives %r instead of raising ValueError', text, out)
    if error:
        require(False, '%r gives %s', text, error)
    require(x.nominal_value == v or v != v, 'nominal value modified')
    return ('shorthand' if 'S' in spec.options else 'plus-minus')+(
        ' special' if s == 0 or s != s or abs(s) == INF or v != v or
        abs(v) == INF else '')


def value_specs(tier):
    for prec, u, t, n in itertools.product(PRECISIONS, ['', 'u'], TYPES,
                                           NOTATIONS):
        if tier == 'quick' and (
                n in ('SL', 'SP', 'L', 'P', 'p') and (
                    prec not in (None, 2) or t in 'EFG')
                or t in ('E', 'F', 'G') and n):
            continue
        if u and prec is None:
            continue
        fields = dict(prec=prec, u=u, type=t)
        if n == 'w':
            fields['width'] = '1'
        else:
            fields['options'] = n
        yield fields


def run_values(task, ctx):
    _, tier, ve, ses, vm = task
    v = float('%se%d' % (vm, ve))
    specs = list(value_specs(tier))
    for sm, se in itertools.product(S_MANTISSAS, ses):
        s = float('%se%d' % (sm, ve+se))
        for fields in specs:
            if fields['type'] in 'fF%' and abs(ve+se) > 40:
                continue
            yield ['format', fields, v, s]


LAYOUT_VALUES = [(3.1415, 0.0001), (-1234567.891, 0.5), (12345.678, 2345.6),
                 (0.0, 0.25), (-1.52e-9, 2.6e-11), (7.2e22, 1.1e20),
                 (-42.5, 0.0), (6.02e23, 0.0), (1234.5, NAN), (2.5e-7, INF),
                 (NAN, 12.5), (-INF, 3e12), (INF, NAN), (-0.0, 0.0),
                 (999.96, 0.04)]
FILLS = ['', '<', '>', '^', '*^', '0>', '=<', '+>', ' <']
WIDTHS = ['', '1', '9', '14', '25']
OPTIONS = ['', 'S', 'P', 'L', 'p', 'SP', 'SL', 'PL', 'pL', 'Pp', 'pS', 'LS']


def layout_specs(tier):
    precs = [(None, ''), (2, ''), (1, 'u'), (0, '')]
    types = ['', 'e', 'f', 'G', '%']
    if tier == 'thorough':
        precs += [(3, 'u'), (5, ''), (12, '')]
        types = ['', 'e', 'E', 'f', 'F', 'g', 'G', '%']
    for (fill, sign, zero, width, comma, (prec, u), t, o) in itertools.product(
            FILLS, ['', '+', '-', ' '], ['', '0'], WIDTHS, ['', ','], precs,
            types, OPTIONS):
        if zero and not width and fill:
            continue
        if tier == 'quick' and (
                fill in ('0>', '=<', '+>', ' <', '>') and (
                    o not in ('', 'S') or comma or sign in '- ')
                or o in ('PL', 'pL', 'Pp', 'pS', 'LS', 'SP') and (
                    width in ('1', '14') or sign in '- ')
                or sign in ('-', ' ') and (zero or comma)):
            continue
        if o.find('P') >= 0 and o.find('L') >= 0 and t == '%':
            continue    # \% or %
        yield dict(fill=fill[:-1], align=fill[-1:], sign=sign, zero=zero,
                   width=width, comma=comma, prec=prec, u=u, type=t,
                   options=o)


def run_layout(task, ctx):
    _, tier, i, part = task
    v, s = LAYOUT_VALUES[i]
    special = not (abs(v) < INF and abs(s) < INF)
    for n, fields in enumerate(layout_specs(tier)):
        if n % PARTS != part:
            continue
        if special and 'L' in fields['options'] and (
                fields['sign'] in ('+', ' ') or fields['zero']):
            continue
        yield ['format', fields, fjson(v), fjson(s)]


PARTS = 4


def fjson(x):
    return repr(x) if x != x or abs(x) == INF else x


SPECIAL_V = [0.0, -0.0, 1.0, -2.5, 724.0, 9.9999999, 1e15, 1e16, 123456.789,
             1.4e-12, -1e-4, 9.99999e-5, 1e-5, 5e-324, 1.23e-320, -2.5e-310,
             2.2250738585072014e-308, 1.7976931348623157e308, 1.6e308, -9e307,
             1e22, 1e23, 999999999999.5, 99999.95, INF, -INF, NAN]
SPECIAL_S = [0.0, 0.3, 950.0, 949.9, 354.0, 1e15, 1e23, 1e-5, 5e-324,
             3.3e-320, 2.2250738585072014e-308, 1.6e308,
             1.7976931348623157e308, 1e-200, 1e200, INF, NAN]
SPECIAL_NOTATIONS = ['', 'S', 'P', 'L', 'p', 'w', 'SL', 'SP', 'Lp']


def run_special(task, ctx):
    _, tier, v = task
    v = float(v)
    precs = PRECISIONS + ([4, 12, 14] if tier == 'thorough' else [])
    for s, prec, u, t, n in itertools.product(
            SPECIAL_S, precs, ['', 'u'], TYPES, SPECIAL_NOTATIONS):
        if 0 < s < abs(v)*1e-290 and abs(v) < INF:
            continue
        if t == '%' and not (
                (abs(v) < 1e306 or not abs(v) < INF)
                and (s < 1e306 or not s < INF)):
            continue
        fields = dict(prec=prec, u=u, type=t)
        if n == 'w':
            fields['width'] = '1'
        else:
            fields['options'] = n
        yield ['format', fields, fjson(v), fjson(s)]
    for s in SPECIAL_S:
        if 0 < s < abs(v)*1e-290 and abs(v) < INF:
            continue
        yield ['format', {}, fjson(v), fjson(s), 'str']
        for how in ('method', 'template'):
            for o in ('', 'S', 'P'):
                yield ['format', dict(type='e', options=o, prec=1),
                       fjson(v), fjson(s), how]


WIDE = [0, 1, 2, 3, 8, 31, 32, 33, 39, 40, 41, 63, 64, 65, 79, 80, 81, 99, 100,
        101, 127, 128, 129, 199, 200, 255, 256, 257, 999, 1000, 1024]


def run_wide(task, ctx):
    """All kinds of widths."""
    _, tier, i = task
    v, s = LAYOUT_VALUES[i]
    types = ['', 'e', 'f', 'G', '%'] if tier == 'thorough' else ['', 'e']
    for fill, sign, zero, width, comma, t, o in itertools.product(
            ['', '*<', '^', '>'], ['', '+'], ['', '0'], WIDE, ['', ','],
            types, ['', 'S', 'P', 'L', 'p']):
        if 'L' in o and (sign or zero) or zero and (fill or not width):
            continue
        if width > 300 and (sign or comma) or width > 99 and comma:
            continue
        yield ['format', dict(fill=fill[:-1], align=fill[-1:], sign=sign,
                              zero=zero, width=str(width or ''), comma=comma,
                              type=t, options=o), fjson(v), fjson(s)]


########################################
# Invalid specifications

ALPHABET = ['*', '<', '^', '+', '0', '5', ',', '.', '.2', 'u', 'e', 'f', 'n',
            'd', '%', 'S', 'L', 'x', ' ', 'U', '_', '{', 'é', '\n']
VALID = re.compile(r'''
    (?:[^{}]?[<>^=])?[-+ ]?0?\d*,?(?:\.\d+)?u?[eEfFgG%]?[PSLp]*\Z''',
                   re.VERBOSE | re.DOTALL)


def check_invalid(case):
    spec, v, s = case[1:]
    x = ufloat(float(v), float(s))
    try:
        out = x.format(spec)
    except ValueError:
        valid = VALID.match(spec) and '=' not in spec
        if valid and '.0' in spec and 'u' in spec:
            return 'refused'    # No digit
        require(not valid, '%r refused', spec)
        return 'refused'
    require(isinstance(out, str), 'result %r', out)
    if not VALID.match(spec):
        require(False, 'invalid %r gives %r', spec, out)
    return 'accepted'


def run_invalid(task, ctx):
    _, tier, first = task
    for n in range(0, 4 if tier == 'quick' else 5):
        for rest in itertools.product(ALPHABET, repeat=n):
            yield ['invalid', first+''.join(rest), 3.1415, 0.02]
            if n < 2:
                yield ['invalid', first+''.join(rest), 'nan', 0.02]
                yield ['invalid', first+''.join(rest), 3.1415, 0.0]


########################################
# Symbols changed globally (see "pydoc uncertainties.UFloat.__format__")

SUPERSCRIPTS = dict(zip(map(ord, '+-0123456789'), '\u207a\u207b\u2070\xb9\xb2\xb3'
                        '\u2074\u2075\u2076\u2077\u2078\u2079'))
SYMBOLS = [  # (mapping, mode, symbols)
    ('EXP_PRINT', 'pretty-print', lambda e: '~'+('%d' % e).translate(
        SUPERSCRIPTS)),
    ('EXP_PRINT', 'latex', lambda e: r' \cdot 10^{%d}' % e),
    ('GROUP_SYMBOLS', 'pretty-print', ('[[', ']')),
    ('GROUP_SYMBOLS', 'latex', ('{', '}}')),
    ('GROUP_SYMBOLS', 'default', ('<', '>>')),
]


def check_symbols(case):
    """Each symbol is only used for the mode for which it is defined."""
    _, n, v, s, prec, u, t, options, width = case
    v, s = float(v), float(s)
    text = '%s%s%s%s%s' % (width, '' if prec is None else '.%d' % prec,
                           u, t, options)
    x = ufloat(v, s)
    before = format(x, text)
    mapping, mode, symbols = SYMBOLS[n]
    mapping = getattr(core, mapping)
    saved = mapping[mode]
    effective = ('pretty-print' if 'P' in options else 'latex'
                 if 'L' in options else 'default')
    mapping[mode] = symbols
    try:
        out = format(x, text)
    finally:
        mapping[mode] = saved
    if mode != effective:
        expected = before
    elif n == 0:
        expected = before.replace('\u00d710', '~')
    elif n == 1:
        expected = before.replace(r'\times', r'\cdot')
    elif 'S' in options:
        expected = before
    elif mode == 'latex':
        expected = before.replace(r'\left(', symbols[0]).replace(
            r'\right)', symbols[1])
    else:
        expected = before.replace('(', symbols[0]).replace(')', symbols[1])
    require(out == expected, '%r with other symbols gives %r instead of %r',
            text, out, expected)
    require(format(x, text) == before, '%r then gives another result', text)
    return 'symbols' if out != before else 'symbols not used'


def run_symbols(task, ctx):
    for n in range(len(SYMBOLS)):
        for v, s in LAYOUT_VALUES:
            for prec, u, t, options, width in itertools.product(
                    (None, 0, 2), ('', 'u'), TYPES, OPTIONS, ('', '1')):
                if u and not prec:
                    continue
                yield ['symbols', n, fjson(v), fjson(s), prec, u, t, options,
                       width]


RUN = {'values': run_values, 'wide': run_wide, 'layout': run_layout, 'special': run_special,
       'symbols': run_symbols, 'invalid': run_invalid}
CHECK = {'format': check_format, 'invalid': check_invalid,
         'symbols': check_symbols}


def tasks(tier):
    exponents = [-7, 0, 1, 5, 13]
    ses = [-14, -6, -3, -1, 0, 1, 4]
    if tier == 'thorough':
        exponents = [-300, -100, -30, -7, -5, -4, -3, -2, -1, 0, 1, 2, 3, 4, 5,
                     6, 7, 11, 13, 40, 150, 290]
        ses = [-16, -14, -9, -6, -5, -4, -3, -2, -1, 0, 1, 2, 4, 8]
    out = [['values', tier, e, ses, m] for e in exponents for m in V_MANTISSAS]
    out += [['layout', tier, i, p] for i in range(len(LAYOUT_VALUES))
            for p in range(PARTS)]
    out += [['wide', tier, i] for i in range(len(LAYOUT_VALUES))]
    out += [['special', tier, fjson(v)] for v in SPECIAL_V]
    out += [['invalid', tier, a] for a in ALPHABET]
    out.append(['symbols', tier])
    return out


def run_task(task, ctx):
    case = None
    for case in RUN[task[0]](task, ctx):
        with ctx.case(case):
            ctx.outcome(CHECK[case[0]](case))
        ctx.state(json.dumps(case))
        ctx.traces += 1
        ctx.transitions += 1
        if ctx.full:
            return
    if case is not None:
        ctx.sample(case)


def replay(case, ctx):
    CHECK[case[0]](case)
