"""C18: construction and uniform access treat all forms of numbers alike."""
import copy
import itertools
import math
import operator
import pickle
import warnings
from decimal import Decimal
from fractions import Fraction

import numpy as np

import uncertainties
from uncertainties import (UFloat, nominal_value, std_dev, ufloat,
                           ufloat_fromstr, umath, unumpy)

from mc.num import same
from mc.run import require

ID = 'C18'
LEVEL = 'model_checking'
RULE = ('a state is a distinct construction (values, types, form of the call) '
        'or a distinct history of assignments and calculations; a transition '
        'is one construction, assignment, calculation or access; a trace is '
        'one construction or history whose observable attributes were all '
        'compared with the model')
ASSUMPTIONS = ['real numbers are represented by Python, NumPy, Fraction and '
               'Decimal types and by float and int subclasses',
               'NumPy converts its complex numbers to floats (with a warning)']

NAN, INF = float('nan'), float('inf')


class MyFloat(float):
    pass


class MyInt(int):
    pass


TYPES = {
    'float': float, 'int': int, 'bool': bool, 'Fraction': Fraction,
    'Decimal': Decimal, 'MyFloat': MyFloat, 'MyInt': MyInt,
    'float64': np.float64, 'float32': np.float32, 'float16': np.float16,
    'longdouble': np.longdouble, 'int8': np.int8, 'uint8': np.uint8,
    'int64': np.int64, 'bool_': np.bool_,
    '0-d array': lambda v: np.array(v, dtype=float)}
INTEGER = ('int', 'bool', 'MyInt', 'int8', 'uint8', 'int64', 'bool_')

VALUES = [0.0, -0.0, 1.0, -1.0, 3.0, 0.5, -2.5, 0.1, 1e300, -1e-300, 5e-324,
          1.7976931348623157e308, 123456789.125, NAN, INF, -INF, 2.0**53+2]
DEVS = [0.0, 1.0, 0.5, 0.1, 3.0, 1e300, 5e-324, 1.7976931348623157e308, NAN,
        INF, 1e-200]


def as_type(value, name):
    """Value in the given type, or None if it does not exist in this type."""
    if name in INTEGER:
        if not math.isfinite(value) or value != int(value):
            return None
        if name in ('bool', 'bool_') and value not in (0, 1):
            return None
        if name == 'uint8' and not 0 <= value < 256:
            return None
        if name == 'int8' and abs(value) > 127:
            return None
        if name == 'int64' and abs(value) > 2**62:
            return None
        return TYPES[name](int(value))
    if name == 'Fraction' and not math.isfinite(value):
        return None
    if name in ('float16', 'float32') and math.isfinite(value):
        with np.errstate(all='ignore'):
            out = TYPES[name](value)
        if not np.isfinite(out):
            return None
        return out
    return TYPES[name](value)


FORMS = {
    'pos': lambda v, s, t: ufloat(v, s),
    'pos tag': lambda v, s, t: ufloat(v, s, t),
    'tag by name': lambda v, s, t: ufloat(v, s, tag=t),
    'std_dev by name': lambda v, s, t: ufloat(v, std_dev=s),
    'all by name': lambda v, s, t: ufloat(tag=t, std_dev=s, nominal_value=v),
    'two by name': lambda v, s, t: ufloat(std_dev=s, nominal_value=v),
    'mixed': lambda v, s, t: ufloat(v, tag=t, std_dev=s),
    'expanded': lambda v, s, t: ufloat(*(v, s), **{'tag': t})}
TAGLESS = ('pos', 'std_dev by name', 'two by name')
TUPLE_FORMS = {
    'tuple': lambda v, s, t: ufloat((v, s)),
    'tuple, tag': lambda v, s, t: ufloat((v, s), t),
    'tuple, tag by name': lambda v, s, t: ufloat((v, s), tag=t),
    'tuple by name': lambda v, s, t: ufloat(nominal_value=(v, s), tag=t)}
TAGS = ['tag', '', '\u03c0', 'x y', None]

STRINGS = {'1+/-0.5': (1.0, 0.5), '1.25(3)': (1.25, 0.03), '-3': (-3.0, 1.0),
           '2.5': (2.5, 0.1), '3(nan)': (3.0, NAN), '(1+/-2)e3': (1e3, 2e3),
           '1.5\u00b10.25': (1.5, 0.25), ' 1+/-0 ': (1.0, 0.0),
           '1e400': None, 'inf+/-1': (INF, 1.0), '0(0)': (0.0, 0.0)}
STRING_FORMS = {
    'string': lambda s, t: ufloat(s),
    'string, tag': lambda s, t: ufloat(s, t),
    'string, tag by name': lambda s, t: ufloat(s, tag=t),
    'fromstr': lambda s, t: ufloat_fromstr(s),
    'fromstr, tag': lambda s, t: ufloat_fromstr(s, t),
    'fromstr, tag by name': lambda s, t: ufloat_fromstr(s, tag=t),
    'fromstr by name': lambda s, t: ufloat_fromstr(representation=s, tag=t)}


def caught(function, *args):
    """(result or None, exception or None, obsolescence warnings)"""
    with warnings.catch_warnings(record=True) as issued:
        warnings.simplefilter('always')
        result, exc = None, None
        try:
            result = function(*args)
        except Exception as e:
            exc = e
    return result, exc, [str(w.message) for w in issued
                         if str(w.message).startswith('Obsolete')]


def check_new(x, v, s, tag):
    """x must be a new variable with these float values."""
    require(isinstance(x, UFloat), 'not a number with uncertainty: %r',
            type(x))
    n = x.nominal_value
    require(type(n) is float and same(n, v), 'nominal value %r, not %r', n, v)
    d = x.std_dev
    require(isinstance(d, float) and same(float(d), abs(s)) or
            (s == 0 and d == 0 and isinstance(d, float)),
            'standard deviation %r, not %r', d, s)
    require(x.tag == tag and type(x.tag) is type(tag), 'tag %r, not %r',
            x.tag, tag)
    ders = dict(x.derivatives)
    require(list(ders) == [x] or [k is x for k in ders] == [True],
            'variables: %r', list(ders))
    require([float(w) for w in ders.values()] == [1.0], 'derivatives: %r',
            ders)
    comps = x.error_components()
    require(len(comps) == 1 and [k is x for k in comps] == [True] and
            same(float(list(comps.values())[0]), abs(float(d))),
            'error components %r', comps)


def check_access(x, v, s):
    """Short and long names, and uniform access."""
    for name, got in (('n', x.n), ('nominal_value', x.nominal_value),
                      ('nominal_value()', nominal_value(x))):
        require(type(got) is float and same(got, v), '%s: %r, not %r', name,
                got, v)
    for name, got in (('s', x.s), ('std_dev', x.std_dev),
                      ('std_dev()', std_dev(x))):
        require(isinstance(got, float) and (same(float(got), s) or
                                            got == s == 0),
                '%s: %r, not %r', name, got, s)


def check_construct(case, ctx):
    form, vt, st, vi, si, tag = case[1:]
    v = as_type(VALUES[vi], vt)
    s = as_type(DEVS[si], st)
    if v is None or s is None:
        return False
    function = FORMS.get(form) or TUPLE_FORMS[form]
    got_tag = None if form in TAGLESS + ('tuple',) else tag
    x, exc, issued = caught(function, v, s, tag)
    require(exc is None, 'refused: %r', exc)
    legacy = form in TUPLE_FORMS
    require(bool(issued) == legacy, 'warnings: %r', issued)
    check_new(x, float(v), float(s), got_tag)
    check_access(x, float(v), float(s))
    # A second identical variable is independent:
    y = caught(function, v, s, tag)[0]
    require(y is not x and set(map(id, (x+y).derivatives)) == {id(x), id(y)},
            'not a new variable')
    ctx.transitions += 2
    return True


def check_string(case, ctx):
    form, text, tag = case[1:]
    expected = STRINGS[text]
    x, exc, issued = caught(STRING_FORMS[form], text, tag)
    require(bool(issued) == (form.startswith('string')), 'warnings %r', issued)
    if expected is None:
        ctx.outcome('overflow')
        expected = (INF, float(x.std_dev))
    require(exc is None, 'refused: %r', exc)
    got_tag = None if form in ('string', 'fromstr') else tag
    check_new(x, expected[0], expected[1], got_tag)
    check_access(x, *expected)
    # The same text gives a new, independent variable:
    y = caught(STRING_FORMS[form], text, tag)[0]
    x.std_dev, x.tag = 7, 'changed'
    require(y is not x and set(map(id, (x+y).derivatives)) == {id(x), id(y)},
            'not a new variable')
    check_new(y, expected[0], expected[1], got_tag)
    ctx.transitions += 2


X0 = ufloat(1, 0.5, 'x0')
INVALID = {
    'no argument': lambda: ufloat(),
    'no deviation': lambda: ufloat(3),
    'float alone': lambda: ufloat(3.5),
    'None': lambda: ufloat(None),
    'None, None': lambda: ufloat(None, None),
    'None nominal value': lambda: ufloat(None, 1),
    'None deviation': lambda: ufloat(1, None),
    'None deviation, tag': lambda: ufloat(1, None, 'tag'),
    'tag without deviation': lambda: ufloat(1, tag='tag'),
    'tag as deviation': lambda: ufloat(1, 'tag'),
    'string deviation': lambda: ufloat(1, '0.1'),
    'string deviation, tag': lambda: ufloat(1, '0.1', 'tag'),
    'negative deviation': lambda: ufloat(1, -1),
    'negative tiny deviation': lambda: ufloat(1, -5e-324),
    'negative infinite deviation': lambda: ufloat(1, -INF),
    'negative Decimal deviation': lambda: ufloat(1, Decimal('-0.1')),
    'negative Fraction deviation': lambda: ufloat(1, Fraction(-1, 10)),
    'negative NumPy deviation': lambda: ufloat(1, np.float32(-0.1)),
    'negative deviation by name': lambda: ufloat(1, std_dev=-0.5, tag='t'),
    'negative deviation in tuple': lambda: ufloat((1, -1)),
    'negative deviation in tuple, tag': lambda: ufloat((1, -1), 'tag'),
    'negative deviation in string': lambda: ufloat('1+/--1'),
    'complex nominal value': lambda: ufloat(1j, 1),
    'complex deviation': lambda: ufloat(1, 1j),
    'real complex deviation': lambda: ufloat(1, 1+0j),
    'uncertain nominal value': lambda: ufloat(X0, 1),
    'uncertain result as nominal value': lambda: ufloat(2*X0, 1),
    'uncertain deviation': lambda: ufloat(1, X0),
    'uncertain result as deviation': lambda: ufloat(1, 2*X0),
    'uncertain number alone': lambda: ufloat(X0),
    'list': lambda: ufloat([1, 2]),
    'list deviation': lambda: ufloat(1, [2]),
    'list nominal value': lambda: ufloat([1], 2),
    'empty tuple': lambda: ufloat(()),
    '1-tuple': lambda: ufloat((1,)),
    '3-tuple': lambda: ufloat((1, 2, 3)),
    'tuple of None': lambda: ufloat((1, None)),
    'tuple with a string': lambda: ufloat((1, 'a')),
    'tuple with a list': lambda: ufloat((1, [2])),
    'tuple as a deviation': lambda: ufloat(1, (2,)),
    'dict': lambda: ufloat({1: 2}),
    'dict deviation': lambda: ufloat(1, {}),
    'array': lambda: ufloat(np.array([1., 2.]), 1),
    'array deviation': lambda: ufloat(1, np.array([1., 2.])),
    'arrays': lambda: ufloat(np.array([1., 2.]), np.array([1., 2.])),
    'empty array': lambda: ufloat(np.array([]), 1),
    'object': lambda: ufloat(object(), 1),
    'object deviation': lambda: ufloat(1, object()),
    'class': lambda: ufloat(float, 1),
    'bad string': lambda: ufloat('x'),
    'empty string': lambda: ufloat(''),
    'bad string, tag': lambda: ufloat('1+/-', 'tag'),
    'bad string, tag by name': lambda: ufloat('+/-1', tag='tag'),
    'bad fromstr': lambda: ufloat_fromstr('1+-2'),
    'fromstr number': lambda: ufloat_fromstr(3),
    'fromstr tuple': lambda: ufloat_fromstr((1, 2)),
    'fromstr None': lambda: ufloat_fromstr(None),
    'too many arguments': lambda: ufloat(1, 2, 'tag', 4),
    'unknown name': lambda: ufloat(1, 2, name='x'),
    'old names': lambda: ufloat(value=1, std_dev=2),
    'huge nominal value': lambda: ufloat(10**400, 1),
    'huge deviation': lambda: ufloat(1, 10**400),
    'huge negative deviation': lambda: ufloat(1, -10**400),
    'signaling deviation': lambda: ufloat(1, Decimal('sNaN')),
    'signaling nominal value': lambda: ufloat(Decimal('sNaN'), 1)}


def check_invalid(case, ctx):
    x, exc, issued = caught(INVALID[case[1]])
    require(exc is not None, 'accepted: %r', x)
    require(not issued, 'incorrect, not obsolete: %r', issued)
    require(same(float(X0.nominal_value), 1.0) and X0.std_dev == 0.5,
            'the argument was modified')
    ctx.transitions += 1


# ---------------------------------------------------------------------------
# Objects without uncertainty

class Duck(object):
    nominal_value = 3
    std_dev = 4
    n = 5
    s = 6


ORDINARY = {
    'int': 3, 'zero': 0, 'float': 2.5, '-0.0': -0.0, 'nan': NAN, 'inf': INF,
    'bool': True, 'big int': 10**400, 'complex': 1+2j, 'Fraction':
    Fraction(1, 3), 'Decimal': Decimal('0.1'), 'float64': np.float64(0.5),
    'float32': np.float32(0.5), 'int64': np.int64(3), 'complex128':
    np.complex128(1j), 'None': None, 'str': 'abc', 'number str': '1+/-2',
    'bytes': b'1', 'list': [1, 2], 'list of numbers': [X0, 2*X0],
    'tuple': (1, 2), 'dict': {1: X0}, 'set': {1}, 'array': np.array([1., 2.]),
    'array of numbers': np.array([X0, 2*X0]), '0-d array': np.array(3.),
    '0-d array of numbers': np.array(X0), 'umatrix':
    unumpy.umatrix([[1, 2]], [[.1, .2]]), 'duck': Duck(), 'class': Duck,
    'UFloat class': UFloat, 'function': ufloat, 'deviation': X0.std_dev,
    'object': object(), 'ellipsis': Ellipsis, 'NotImplemented':
    NotImplemented, 'module': math, 'empty str': '', 'empty list': []}


def check_ordinary(case, ctx):
    o = ORDINARY[case[1]]
    before = repr(o)
    require(nominal_value(o) is o, 'nominal_value(): %r', nominal_value(o))
    require(uncertainties.nominal_value(x=o) is o, 'nominal_value(x=...)')
    d = std_dev(o)
    require(type(d) is float and same(d, 0.0), 'std_dev(): %r', d)
    require(not isinstance(o, UFloat), 'recognized as a UFloat')
    require(repr(o) == before, 'modified')
    ctx.transitions += 2


# ---------------------------------------------------------------------------
# Numbers of all kinds

def numbers(v, s):
    """{kind: (number, nominal value, deviation)}"""
    with warnings.catch_warnings(), np.errstate(all='ignore'):
        warnings.simplefilter('ignore')
        x = ufloat(v, s)
        t = ufloat(v, s, 'tag')
        f = uncertainties.wrap(lambda a: a, [lambda a: 1.0])
        arr = unumpy.uarray([v], [s])
        out = {
            'variable': (x, v, s), 'tagged': (t, v, s),
            'legacy': (ufloat((v, s)), v, s),
            'changed': (ufloat(v, 7), v, s),
            'identity': (+x, v, s), 'opposite': (-x, -v, s),
            'sum': (x+0, v+0, s), 'reversed sum': (0.0+t, 0.0+v, s),
            'product': (x*1, v*1, s), 'wrapped': (f(x), v, s),
            'exact variable': (ufloat(v, 0), v, 0.0),
            'exact result': (ufloat(v, 0)*1, v, 0.0),
            'no variable': (x*0+v, v*0+v, None),
            'two variables': (t-ufloat(0, 0), v, s),
            'element': (arr[0], v, s), 'array result': ((arr*1)[0], v, s),
            'copy': (copy.copy(x), v, s),
            'deep copy': (copy.deepcopy(x*1), v, s),
            'pickled': (pickle.loads(pickle.dumps(t)), v, s),
            'pickled result': (pickle.loads(pickle.dumps(x*1)), v, s)}
        out['changed'][0].std_dev = s
    return out


COERCIONS = {
    'int': int, 'float': float, 'complex': complex, '__int__':
    lambda x: x.__int__(), '__float__': lambda x: x.__float__(),
    '__complex__': lambda x: x.__complex__(), 'operator.index':
    operator.index, 'range': range, 'list index': lambda x: [1, 2][x],
    '%f': lambda x: '%f' % x, '%g': lambda x: '%.3g' % x, '%d':
    lambda x: '%d' % x, 'math.sqrt': math.sqrt, 'math.isnan': math.isnan,
    'math.atan2': lambda x: math.atan2(x, 1), 'float64': np.float64,
    'complex128': np.complex128, 'float array':
    lambda x: np.array([x], dtype=float), 'int array':
    lambda x: np.array([x], dtype=int), 'astype':
    lambda x: np.array([x]).astype(float), 'setitem':
    lambda x: operator.setitem(np.zeros(2), 0, x), 'Fraction': Fraction,
    'Decimal': Decimal, 'int(2, x)': lambda x: int('2', x), 'round digits':
    lambda x: round(1.5, x), 'complex(1, x)': lambda x: complex(1, x),
    'sleep-like': lambda x: math.ldexp(1.0, x), 'fsum':
    lambda x: math.fsum([1.0, x]), 'hypot': lambda x: math.hypot(1.0, x)}


def check_kind(case, ctx):
    vi, si, kind = case[1:]
    v, s = VALUES[vi], DEVS[si]
    x, n, d = numbers(v, s)[kind]
    require(isinstance(x, UFloat), 'not recognized: %r', type(x))
    if d is None:
        d = 0.0 if s == 0 or not math.isnan(float(x.std_dev)) else NAN
        if not math.isfinite(v) or not math.isfinite(s):
            d = float(x.std_dev)
            n = x.nominal_value
    if kind == 'product' and not math.isfinite(v):
        n = v
    check_access(x, n, d)
    for name, function in sorted(COERCIONS.items()):
        result, exc, _ = caught(function, x)
        require(isinstance(exc, TypeError), '%s: %r instead of a TypeError',
                name, exc if exc is not None else result)
        ctx.transitions += 1
    # Accesses do not change the number:
    check_access(x, n, d)
    # Legacy access:
    result, exc, issued = caught(lambda: x.std_dev())
    require(exc is None and issued and isinstance(result, float)
            and (same(float(result), float(x.std_dev))),
            'std_dev(): %r, %r, %r', result, exc, issued)
    for name in ('n', 's', 'nominal_value'):
        exc = caught(setattr, x, name, 3.0)[1]
        if name != 'nominal_value':
            require(isinstance(exc, AttributeError), '%s can be set', name)
    if isinstance(x, UFloat) and dict(x.derivatives) and [
            k is x for k in x.derivatives] == [True]:
        result, exc, issued = caught(lambda: x.set_std_dev(0.25))
        require(exc is None and issued and result is None,
                'set_std_dev(): %r %r', exc, issued)
        check_access(x, n, 0.25)
        ctx.transitions += 1


# ---------------------------------------------------------------------------
# Standard scores

SCORE_VALUES = [0.0, 1.0, -1.0, 3.0, 0.1, 2.5, 1e10, -1e-10, 1e300, NAN, INF,
                -INF]
SCORE_N = [0.0, 1.0, -2.5, 1e10, 1e-10, NAN, INF]
SCORE_S = [0.0, 1.0, 0.5, 0.1, 1e-10, 1e10, NAN, INF]


def as_score(v, name):
    if name == 'Decimal':
        return None  # Decimals do not mix with floats
    return as_type(v, name)


def model_score(v, n, s):
    return (v-n)/s


def check_score(case, ctx):
    ni, si, kind = case[1:]
    n, s = SCORE_N[ni], SCORE_S[si]
    x, n, d = numbers(n, s)[kind]
    if d is None or math.isnan(n) and kind == 'no variable':
        return
    if x.std_dev != d and not (d != d and x.std_dev != x.std_dev):
        return
    for v in SCORE_VALUES:
        for name in TYPES:
            value = as_score(v, name)
            if value is None:
                continue
            with np.errstate(all='ignore'):
                result, exc, _ = caught(x.std_score, value)
            ctx.transitions += 1
            if d == 0:
                require(isinstance(exc, ValueError),
                        'std_score(%r) of an exact number: %r', value,
                        exc if exc is not None else result)
                continue
            require(exc is None, 'std_score(%r): %r', value, exc)
            if name in ('float16', 'float32'):
                # NumPy calculates with fewer digits
                if math.isfinite(float(result)):
                    require(abs(float(result) - model_score(float(value), n, d))
                            <= 1e-2*abs(float(result)) + 0.01 or
                            abs(n) > 1e4 or d < 1e-4 or d > 1e4,
                            'std_score(%r): %r', value, result)
                continue
            expected = model_score(float(value), n, d)
            if name == 'longdouble':
                require(abs(float(result)-expected) <= 1e-15*abs(expected)
                        if math.isfinite(expected)
                        and math.isfinite(float(result))
                        else True, 'std_score(%r): %r, not %r', value, result,
                        expected)
                continue
            require(same(float(result), expected),
                    'std_score(%r): %r, not %r', value, result, expected)
    # Arrays and lists of values
    values = [v for v in SCORE_VALUES]
    with np.errstate(all='ignore'):
        result, exc, _ = caught(x.std_score, np.array(values))
    if d == 0:
        require(isinstance(exc, ValueError), 'std_score(array): %r %r', exc,
                result)
    else:
        require(exc is None and result.shape == (len(values),),
                'std_score(array): %r', exc)
        for v, r in zip(values, result):
            require(same(float(r), model_score(v, n, d)),
                    'std_score(array): %r for %r', r, v)
    # Number with uncertainty as a value
    y = ufloat(3, 0.5)
    result, exc, _ = caught(x.std_score, y)
    if d == 0:
        require(isinstance(exc, ValueError), 'std_score(number): %r %r', exc,
                result)
    elif math.isfinite(n) and math.isfinite(d):
        require(exc is None and isinstance(result, UFloat),
                'std_score(number): %r', exc)
        require(same(result.nominal_value, model_score(3.0, n, d)) and
                abs(result.std_dev - 0.5/d) <= 1e-15*0.5/d,
                'std_score(number): %r', result)


# ---------------------------------------------------------------------------
# Histories of assignments and calculations

EVENTS = [('set', 0, 0.0), ('set', 0, 2.0), ('set', 0, INF), ('set', 1, 0.0),
          ('set', 1, 3.0), ('set', 0, NAN), ('legacy', 0, 4.0),
          ('double',), ('negate',), ('add',), ('subtract',), ('array',),
          ('new',), ('tuple',)]


def check_history(case, ctx):
    """Model: (coefficients of the current number, deviations)."""
    a, b = ufloat(1, 1, 'a'), ufloat(2, 0.5, 'b')
    devs = [1.0, 0.5]
    current, coefs, nominal, a_nominal = a, (1, 0), 1.0, 1.0
    for e in case[1]:
        kind = EVENTS[e][0]
        if kind == 'set':
            (a, b)[EVENTS[e][1]].std_dev = EVENTS[e][2]
            devs[EVENTS[e][1]] = EVENTS[e][2]
        elif kind == 'legacy':
            caught(lambda: a.set_std_dev(4.0))
            devs[0] = 4.0
        elif kind == 'double':
            current, nominal = 2*current, 2*nominal
            coefs = tuple(2*c for c in coefs)
        elif kind == 'negate':
            current, nominal = -current, -nominal
            coefs = tuple(-c for c in coefs)
        elif kind == 'add':
            current, nominal = current+b, nominal+2
            coefs = (coefs[0], coefs[1]+1)
        elif kind == 'subtract':
            current, nominal = current-a, nominal-a_nominal
            coefs = (coefs[0]-1, coefs[1])
        elif kind == 'array':
            current = (unumpy.uarray([0], [0]) + current)[0]
            nominal = 0.0+nominal
        elif kind == 'new':
            a, nominal, coefs = ufloat(nominal_value=5, std_dev=1.5), 5.0, (1, 0)
            devs[0], current = 1.5, a
        elif kind == 'tuple':
            a = caught(lambda: ufloat((6, 2.5), 't'))[0]
            devs[0], current, nominal, coefs = 2.5, a, 6.0, (1, 0)
        if kind in ('new', 'tuple'):
            a_nominal = nominal
        # Observations after each event
        deltas = [abs(c)*d for c, d in zip(coefs, devs) if d]
        if any(d != d for d in deltas):
            s = NAN
        elif any(d == INF for d in deltas):
            s = INF
        else:
            s = math.sqrt(sum(d*d for d in deltas))
        require(isinstance(current, UFloat), 'not a UFloat')
        require(same(current.n, nominal) and
                same(nominal_value(current), nominal) and
                same(current.nominal_value, nominal), 'nominal value %r',
                current.n)
        for got in (current.s, current.std_dev, std_dev(current)):
            require(abs(got-s) <= 1e-15*s if math.isfinite(s)
                    else same(float(got), s),
                    'deviation %r, not %r', got, s)
        result, exc, _ = caught(current.std_score, 2.0)
        if s == 0:
            require(isinstance(exc, ValueError), 'score: %r %r', result, exc)
        elif math.isfinite(s):
            want = (2.0-nominal)/s
            require(exc is None and abs(result-want) <= 1e-14*abs(want),
                    'score: %r, not %r', result, want)
        for function in (int, float, complex):
            exc = caught(function, current)[1]
            require(isinstance(exc, TypeError), '%s(): %r', function, exc)
        ctx.transitions += 1


# ---------------------------------------------------------------------------

HISTORY_DEPTH = {'quick': 4, 'thorough': 6}


def tasks(tier):
    out = []
    for form in sorted(FORMS) + sorted(TUPLE_FORMS):
        for vt in TYPES:
            out.append(['construct', form, vt, tier])
    out.append(['strings'])
    out.append(['invalid'])
    out.append(['ordinary'])
    for vi in range(len(VALUES)):
        out.append(['kinds', vi])
    for ni in range(len(SCORE_N)):
        out.append(['scores', ni])
    for first in range(len(EVENTS)):
        out.append(['histories', first, HISTORY_DEPTH[tier]])
    return out


def cases(task):
    what = task[0]
    if what == 'construct':
        _, form, vt, tier = task
        for st in TYPES:
            for vi in range(len(VALUES)):
                for si in range(len(DEVS)):
                    tags = (TAGS if tier == 'thorough' or (vi+si) % 7 == 0
                            else TAGS[:1])
                    if form in TAGLESS + ('tuple',):
                        tags = TAGS[:1]
                    for tag in tags:
                        yield ['construct', form, vt, st, vi, si, tag]
    elif what == 'strings':
        for form in sorted(STRING_FORMS):
            for text in sorted(STRINGS):
                for tag in TAGS:
                    yield ['string', form, text, tag]
    elif what == 'invalid':
        for name in sorted(INVALID):
            yield ['invalid', name]
    elif what == 'ordinary':
        for name in sorted(ORDINARY):
            yield ['ordinary', name]
    elif what == 'kinds':
        for si in range(len(DEVS)):
            for kind in sorted(numbers(1.0, 1.0)):
                yield ['kind', task[1], si, kind]
    elif what == 'scores':
        for si in range(len(SCORE_S)):
            for kind in sorted(numbers(1.0, 1.0)):
                yield ['score', task[1], si, kind]
    elif what == 'histories':
        for k in range(task[2]):
            for rest in itertools.product(range(len(EVENTS)), repeat=k):
                if k == task[2]-1:  # Prefixes are observed too
                    yield ['history', [task[1]] + list(rest)]


def run_case(case, ctx):
    kind = case[0]
    if kind == 'construct':
        if check_construct(case, ctx) is False:
            return
    elif kind == 'string':
        check_string(case, ctx)
    elif kind == 'invalid':
        check_invalid(case, ctx)
    elif kind == 'ordinary':
        check_ordinary(case, ctx)
    elif kind == 'kind':
        check_kind(case, ctx)
    elif kind == 'score':
        check_score(case, ctx)
    elif kind == 'history':
        check_history(case, ctx)
    else:
        raise ValueError(kind)
    ctx.state(str(case))
    ctx.traces += 1
    ctx.outcome(kind)


def run_task(task, ctx):
    for case in cases(task):
        with ctx.case(case):
            run_case(case, ctx)
        ctx.sample(case)
        if ctx.full:
            break


def replay(case, ctx):
    run_case(case, ctx)
