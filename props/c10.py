"""C10: mathematical functions match math with the true derivatives.

- plain: every function applied to every tuple (up to 3) of ordinary objects:
  same value, type and exception as math.
- single: every function with every combination of argument kinds (uncertain,
  exact, plain of several types, the same number twice) and values from a table
  of regular, extreme, boundary and special points, derivatives against
  60-digit arithmetic.
- special functions: modf, ldexp, frexp, fsum with all argument kinds.
- constant: locally constant functions.
- compose: all compositions f(g(x)) and combinations f(x)*g(x).
"""
import itertools
import json
import math
import sys
from decimal import Decimal
from fractions import Fraction

import numpy

from uncertainties import ufloat, UFloat, umath

from mc.num import mp, mpf, same, close, to_float, fname, INF, NAN
from mc.run import require
from props.c01 import ANY, UNDEF, verify_result, representable

ID = 'C10'
LEVEL = 'model_checking'
RULE = ('a state is a distinct (function, argument kinds, argument values); a '
        'transition is one function call; a trace is one call for which '
        'value, type, exception, derivatives and standard deviation were '
        'compared with the reference')
ASSUMPTIONS = ['values outside the tables behave like those inside',
               'derivatives beyond the range of floats may be NaN or infinite,'
               ' those below 1e-290 may be zero',
               'kinks (fabs and copysign at 0) are checked for nominal values '
               'only', 'gamma and lgamma are checked away from their poles, '
               'with the precision of numerical differentiation']


def num(x):
    if isinstance(x, mp.mpc):
        return UNDEF
    if mp.isnan(x):
        return UNDEF
    if abs(x) > mpf('1e309'):
        return UNDEF
    if not representable(x):
        return ANY
    return to_float(x)


def d_pow(x, y):
    X, Y = mpf(x), mpf(y)
    if y == 0:
        dx = mpf(0)
    elif x == 0:
        dx = mpf(1) if y == 1 else mpf(0) if y > 1 else UNDEF
        if y > 1 and y % 1:
            dx = ANY        # one-sided
    else:
        v = mp.power(abs(X), Y-1)
        sign = -1 if x < 0 and (y-1) % 2 else 1
        dx = Y*v*sign
        if not representable(v) and representable(dx):
            dx = ANY
    if x == 0:
        dy = mpf(0) if y > 0 else UNDEF
    elif x < 0:
        dy = UNDEF
    else:
        dy = mp.log(X)*mp.power(X, Y)
    return dx, dy


def d_hypot(*args):
    h = mp.sqrt(sum(mpf(a)**2 for a in args))
    if h == 0:
        return (UNDEF,)*len(args)
    if h < mpf('1e-300'):
        return (ANY,)*len(args)     # subnormal arithmetic
    return tuple(mpf(a)/h for a in args)


def d_atan2(y, x):
    h2 = mpf(x)**2+mpf(y)**2
    if h2 == 0:
        return UNDEF, UNDEF
    if h2 < mpf('1e-600'):
        return ANY, ANY
    if y == 0 and x < 0:
        return ANY, ANY     # cut
    return mpf(x)/h2, -mpf(y)/h2


def d_fmod(x, y):
    q = mpf(x)/mpf(y)
    if abs(q-mp.nint(q)) <= mpf(1e-15)*max(abs(q), 1):
        return ANY, ANY
    n = mp.floor(abs(q))*(1 if q > 0 else -1)
    return mpf(1), -n


def d_log(x, *base):
    X = mpf(x)
    if not base:
        return (1/X,)
    B = mpf(base[0])
    L = mp.log(B)
    return 1/X/L, -mp.log(X)/L/L/B


def d_copysign(x, y):
    dx = ANY if x == 0 else mpf(1 if (x > 0) == (
        math.copysign(1, y) > 0) else -1)
    return dx, (ANY if y == 0 else mpf(0))


def one(f, domain=lambda x: True):
    return lambda x: ((f(mpf(x)),) if domain(x) else (UNDEF,))


DERIVATIVES = {
    'acos': one(lambda x: -1/mp.sqrt((1-x)*(1+x)), lambda x: abs(x) != 1),
    'acosh': one(lambda x: 1/mp.sqrt((x-1)*(x+1)), lambda x: x != 1),
    'asin': one(lambda x: 1/mp.sqrt((1-x)*(1+x)), lambda x: abs(x) != 1),
    'asinh': one(lambda x: 1/mp.sqrt(1+x*x)),
    'atan': one(lambda x: 1/(1+x*x)),
    'atan2': d_atan2,
    'atanh': one(lambda x: 1/((1-x)*(1+x))),
    'copysign': d_copysign,
    'cos': one(lambda x: -mp.sin(x)),
    'cosh': one(mp.sinh),
    'degrees': one(lambda x: 180/mp.pi),
    'erf': one(lambda x: 2/mp.sqrt(mp.pi)*mp.exp(-x*x)),
    'erfc': one(lambda x: -2/mp.sqrt(mp.pi)*mp.exp(-x*x)),
    'exp': one(mp.exp),
    'expm1': one(mp.exp),
    'fabs': lambda x: ((mpf(1 if x > 0 else -1),) if x else (ANY,)),
    'fmod': d_fmod,
    'gamma': one(lambda x: mp.gamma(x)*mp.digamma(x)),
    'hypot': d_hypot,
    'lgamma': one(mp.digamma),
    'log': d_log,
    'log10': one(lambda x: 1/x/mp.log(10)),
    'log1p': one(lambda x: 1/(1+x)),
    'pow': d_pow,
    'radians': one(lambda x: mp.pi/180),
    'sin': one(mp.cos),
    'sinh': one(mp.cosh),
    'sqrt': one(lambda x: 1/(2*mp.sqrt(x)), lambda x: x != 0),
    'tan': one(lambda x: 1+mp.tan(x)**2),
    'tanh': one(lambda x: 1-mp.tanh(x)**2 if abs(x) < 20 else
                4*mp.exp(-2*abs(x))),
}
UNARY = sorted(n for n in DERIVATIVES
               if n not in ('atan2', 'copysign', 'fmod', 'hypot', 'pow'))
BINARY = ['atan2', 'copysign', 'fmod', 'hypot', 'log', 'pow']
CONSTANT = ['ceil', 'floor', 'isinf', 'isnan', 'trunc']
SPECIAL = ['factorial', 'fsum', 'modf', 'ldexp', 'frexp']
ALL = sorted(set(UNARY) | set(BINARY) | set(CONSTANT) | set(SPECIAL))

# At these points, functions are checked for all derivatives; the neighbours
# of 1 are regular points of acos, acosh, log...
VALUES = [0.0, -0.0, 0.5, -0.5, 1.0, -1.0, 2.0, -2.0, 3.0, -3.0, 0.1, -0.7,
          1.5, -2.5, 10.0, -17.3, 1e-5, -1e-5, 1e-8, 5.5, 20.5, 37.0, -45.0,
          100.0, -700.0, 709.5, 1e4, 1.0000000000000002, 0.9999999999999999,
          -0.9999999999999999, 1+1e-9, 1-1e-9, -1+1e-12, 1e-160, -1e-160,
          1e-200, 1e-300, 5e-324, -5e-324, 1e15, -1e15, 1e155, 1e200, -1e200,
          1e300, 1.7e308, -1.7e308, math.pi, math.pi/2, math.e,
          INF, -INF, NAN]
MORE = [k/8 for k in range(-40, 41)] + [10.0**k for k in range(-20, 21)] + [
    -10.0**k for k in range(-20, 21)] + [2.0**-52, 1e22, 170.3, 171.5, -171.5,
                                         26.5, -26.5, 308.0, -308.0, 1023.0]
BINARY_VALUES = [0.0, -0.0, 0.5, -0.5, 1.0, -1.0, 2.0, -2.0, 3.0, -3.0, 0.1,
                 1.5, -2.5, 10.0, 1e-5, 1e-160, -1e-160, 1e-300, 5e-324, 1e10,
                 1e155, -1e200, 1e300, 1.0000000000000002, 7.3, 0.9,
                 INF, -INF, NAN]
HYPOT_VALUES = [0.0, 3.0, -4.0, 1e-160, 1e200, 12.5]


def reference(name, args):
    """(value or None, exception type or None)"""
    try:
        return getattr(math, name)(*args), None
    except Exception as exc:
        return None, type(exc)


def tolerance(name, args):
    if name in ('gamma', 'lgamma'):
        return None
    if name in ('sin', 'cos', 'tan'):
        return 1e-12
    if name in ('pow', 'erf', 'erfc', 'exp', 'cosh', 'sinh', 'tanh', 'expm1'):
        return 1e-12
    return 1e-12


def scale_of(name, args, d):
    """Scale of the absolute error of derivatives (cancellations)."""
    if name == 'log' and len(args) == 2 and args[1] and args[0]:
        return 0
    return 0


def near_pole(x):
    return x <= 0.05 and abs(x-round(x)) < 0.05 or abs(x) > 1e300


def check_single(case):
    """[.., function, argument kinds, values, deviations]"""
    name, kinds, values, stds = case[1:]
    values = [float(v) for v in values]
    stds = [float(s) for s in stds]
    actual, plain = [], []
    variables = []
    for k, v, s in zip(kinds, values, stds):
        plain.append(v)
        x = None
        if k == 'U':            # variable
            a = x = ufloat(v, s)
        elif k == 'E':          # expression
            x = ufloat(v, s)
            a = +x
        elif k == 'X':          # the first number again
            a, x = actual[0], variables[0]
            plain[-1] = plain[0]
        elif k == 'N':
            a = numpy.float64(v)
        elif k == 'I':
            a = int(v)
        elif k == 'B':
            a = bool(v)
        else:
            a = v
        actual.append(a)
        variables.append(x)
    # (math.pow(x, True), etc. are the same as with floats)
    plain = [float(a) if not isinstance(a, UFloat) else p
             for a, p in zip(actual, plain)]
    value, exc = reference(name, plain)
    try:
        r = getattr(umath, name)(*actual)
    except Exception as e:
        require(exc is not None and type(e) is exc, 'raises %r instead of %s',
                e, exc.__name__ if exc else value)
        return 'exception'
    require(exc is None, 'gives %r instead of raising %s', r,
            exc and exc.__name__)
    require(isinstance(r, UFloat) and same(r.nominal_value, float(value)),
            'value %r instead of %r', r, value)
    for x, v, s in zip(variables, values, stds):
        if x is not None and not any(k == 'X' for k in kinds):
            require(same(x.nominal_value, v) and same(float(x.std_dev), s),
                    'argument modified')
    if not all(abs(p) < INF for p in plain) or not abs(value) < INF:
        r.std_dev      # readable
        # Exact arguments contribute nothing
        for x, c in r.error_components().items():
            require(x.std_dev != 0 or c == 0, 'component %r of an exact '
                    'variable', c)
        return 'non-finite'
    partials = DERIVATIVES[name](*plain)
    refs = {}
    for x, d in zip(variables, partials):
        if x is None:
            continue
        if id(x) in refs:
            d0 = refs[id(x)][1]
            scale = max(abs(t) for t in (d0, d)) if not (
                d0 is ANY or d is ANY or d0 is UNDEF or d is UNDEF) else 0
            d = (ANY if d0 is ANY or d is ANY else
                 UNDEF if d0 is UNDEF or d is UNDEF else
                 # Infinity minus infinity
                 ANY if max(abs(d0), abs(d)) > mpf('1e307') else d0+d)
            refs[id(x)] = (x, d, to_float(scale))
        else:
            refs[id(x)] = (x, d, 0)
    refs = [(x, d if d is ANY or d is UNDEF else num(d), sc)
            for x, d, sc in refs.values()]
    tol = tolerance(name, plain)
    if tol is None:
        if near_pole(plain[0]):
            r.std_dev
            return 'near pole'
        tol = 1e-5
        refs = [(x, d, max(abs(value), 1)/max(abs(plain[0]), 1e-300))
                for x, d, sc in refs]
        refs = [(x, ANY if plain[0] < 1e-100 else d, sc) for x, d, sc in refs]
    verify_result(r, float(value), refs, tol)
    return ('undefined derivative' if any(d is UNDEF for _, d, _ in refs) else
            'kink or limit' if any(d is ANY for _, d, _ in refs) else
            'differentiable')


STDS = [0.0, 0.25, 1e-20, 'nan', 'inf']


def run_single(task, ctx):
    _, tier, name = task
    if name in UNARY:
        values = VALUES+(MORE if tier == 'thorough' else [])
        for v, k, s in itertools.product(values, 'UE', STDS):
            yield ['single', name, k, [v], [s]]


def run_binary(task, ctx):
    _, tier, name, first = task
    values = BINARY_VALUES
    for second in values:
        for kinds in ('UU', 'UC', 'CU', 'UN', 'NU', 'EU', 'UI', 'IU', 'UB',
                      'BU'):
            if 'I' in kinds or 'B' in kinds:
                v = first if kinds[0] in 'IB' else second
                if not abs(v) < 1e18 or v % 1:
                    continue
                if 'B' in kinds and v not in (0, 1):
                    continue
            choices = [STDS if k in 'UE' else [0.0] for k in kinds]
            if tier == 'quick' and kinds not in ('UU',):
                choices = [[0.0, 0.25] if len(c) > 1 else c for c in choices]
            for stds in itertools.product(*choices):
                yield ['single', name, kinds, [first, second], stds]
    for s in STDS:
        yield ['single', name, 'UX', [first, first], [s, s]]


def run_hypot(task, ctx):
    _, tier, n = task
    for kinds in itertools.product('UCX', repeat=n):
        if kinds[0] != 'U' and 'X' in kinds or 'U' not in kinds:
            continue
        for values in itertools.product(
                HYPOT_VALUES if n < 4 else HYPOT_VALUES[:4], repeat=n):
            yield ['single', 'hypot', ''.join(kinds), values, [0.25]*n]


########################################
# Plain arguments

OBJECTS = {
    '0': 0, '1': 1, '-1': -1, '2': 2, '3': 3, '10**25': 10**25,
    '10**400': 10**400, '0.': 0.0, '-0.': -0.0, '0.5': 0.5, '-0.5': -0.5,
    '1.': 1.0, '2.': 2.0, '-3.7': -3.7, '1e300': 1e300, '5e-324': 5e-324,
    'inf': INF, '-inf': -INF, 'nan': NAN, 'True': True, 'False': False,
    'Fraction': Fraction(3, 4), 'Decimal': Decimal('1.25'),
    'float64': numpy.float64(0.75), 'float32': numpy.float32(0.25),
    'int64': numpy.int64(3), 'array0': numpy.array(0.5),
    'array1': numpy.array([0.5]), 'array2': numpy.array([0.5, 2.0]),
    'str': 'a', 'numeric str': '1', 'None': None, 'list': [], 'list2': [1, 2],
    'tuple': (1.5, 2), 'complex': 1j, 'dict': {}, 'object': object(),
    'nested': [[1], 2], 'list str': ['a'], 'list float': [1e300, 1.0, -1e300],
    'range': range(5)}
PLAIN_NAMES = ['0', '1', '-3.7', '2', '0.5', 'nan', 'inf', 'None', 'str',
               'Fraction', 'True', '10**400', 'complex', 'list2']


def check_plain(case):
    name, objs = case[1:]
    args = [OBJECTS[o] for o in objs]
    ref, exc = reference(name, args)
    try:
        got = getattr(umath, name)(*args)
    except Exception as e:
        require(exc is not None and type(e) is exc, 'raises %r instead of %s',
                e, exc.__name__ if exc else ref)
        return 'plain exception'
    require(exc is None, 'gives %r instead of raising %s', got,
            exc and exc.__name__)
    require(type(got) is type(ref), 'gives a %s instead of a %s',
            type(got).__name__, type(ref).__name__)
    require(same(got, ref) if isinstance(ref, float) else got == ref or
            repr(got) == repr(ref), 'gives %r instead of %r', got, ref)
    return 'plain value'


def run_plain(task, ctx):
    _, tier, name = task
    yield ['plain', name, []]
    for o in OBJECTS:
        yield ['plain', name, [o]]
    if name == 'factorial':
        return
    for o in itertools.product(OBJECTS, repeat=2):
        yield ['plain', name, o]
    for o in itertools.product(PLAIN_NAMES, repeat=3):
        yield ['plain', name, o]


########################################
# Locally constant functions

def check_constant(case):
    name, kind, v, s = case[1:]
    v, s = float(v), float(s)
    x = ufloat(v, s)
    a = {'U': x, 'E': +x, 'D': x-x+v if v == v and abs(v) < INF else x}[kind]
    ref, exc = reference(name, [a.nominal_value])
    try:
        got = getattr(umath, name)(a)
    except Exception as e:
        require(exc is not None and type(e) is exc, 'raises %r', e)
        return 'constant exception'
    require(exc is None and type(got) is type(ref) and got == ref,
            'gives %r instead of %r', got, ref)
    require(same(x.nominal_value, v) and same(float(x.std_dev), s),
            'argument modified')
    return 'constant'


def run_constant(task, ctx):
    _, tier = task
    for name, k, v, s in itertools.product(CONSTANT, 'UED', VALUES, STDS):
        yield ['constant', name, k, v, s]
    yield ['names']


def check_names(case):
    for n in ALL:
        if hasattr(math, n):
            require(hasattr(umath, n), 'umath.%s is missing', n)
            require(n in umath.__all__, '%s is not exported', n)
    try:
        umath.factorial(ufloat(3, 0.1))
    except TypeError:
        pass
    else:
        require(False, 'factorial of a number with uncertainty')
    return 'names'


########################################
# modf, ldexp, frexp, fsum

def check_parts(case):
    name, kind, v, s, i = case[1:]
    v, s = float(v), float(s)
    x = ufloat(v, s)
    a = x if kind == 'U' else +x
    args = [i] if name == 'ldexp' else []
    ref, exc = reference(name, [v]+args)
    try:
        got = getattr(umath, name)(a, *args)
    except Exception as e:
        require(exc is not None and type(e) is exc, 'raises %r instead of %s',
                e, exc.__name__ if exc else ref)
        return name+' exception'
    require(exc is None, 'gives %r instead of %s', got, exc and exc.__name__)
    if name == 'ldexp':
        r, value = got, ref
        d = mp.ldexp(mpf(1), min(max(i, -5000), 5000))
    else:
        require(isinstance(got, tuple) and len(got) == 2, 'result %r', got)
        require(type(got[1]) is type(ref[1]) and
                repr(got[1]) == repr(ref[1]), 'second part %r instead of %r',
                got[1], ref[1])
        r, value = got[0], ref[0]
        d = mpf(1) if name == 'modf' else mp.ldexp(mpf(1), -ref[1])
    require(isinstance(r, UFloat) and same(r.nominal_value, value),
            '%r instead of %r', r, value)
    if not abs(v) < INF or not abs(value) < INF:
        r.std_dev
        return name+' non-finite'
    if name == 'modf' and v % 1 == 0:
        d = ANY
    if name == 'frexp' and v == 0:
        d = ANY
    verify_result(r, value, [(x, d if d is ANY else num(d), 0)], 1e-13)
    return name


def run_parts(task, ctx):
    _, tier, name = task
    for kind, v, s in itertools.product('UE', VALUES+MORE, STDS):
        for i in ([0, 1, -1, 3, 10, -60, 700, -700, 1023, 1024, -1022, -1074,
                   -1075, 2000, -2000, 10**6, -10**6, True]
                  if name == 'ldexp' else [None]):
            yield ['parts', name, kind, v, s, i]


FSUM_VALUES = [1.0, 1e16, -1e16, 0.1, 1e-20]


def check_fsum(case):
    kinds, container, values = case[1:]
    x = ufloat(values[0], 0.5)
    y = ufloat(3.0, 0.25)
    args, plain = [], []
    dx = dy = 0
    for k, v in zip(kinds, values):
        if k == 'x':
            args.append(x)
            plain.append(values[0])
            dx += 1
        elif k == 'y':
            args.append(y)
            plain.append(3.0)
            dy += 1
        elif k == 'e':
            args.append(2*x+y)
            plain.append((2*x+y).nominal_value)
            dx += 2
            dy += 1
        elif k == 'i':
            args.append(int(v))
            plain.append(int(v))
        else:
            args.append(v)
            plain.append(v)
    arg = {'list': list, 'tuple': tuple, 'iterator': iter,
           'generator': lambda l: (n for n in l),
           'array': lambda l: numpy.array(l, dtype=object)}[container](args)
    ref = math.fsum(plain)
    got = umath.fsum(arg)
    if not dx and not dy:
        require(same(got, ref), 'sum %r instead of %r', got, ref)
        return 'fsum plain'
    require(isinstance(got, UFloat) and same(got.nominal_value, ref),
            'sum %r instead of %r', got, ref)
    d = got.derivatives
    require({id(k): t for k, t in d.items()} == {
        id(k): float(t) for k, t in ((x, dx), (y, dy)) if t},
        'derivatives %r instead of %d, %d', d, dx, dy)
    require(close(got.std_dev, math.hypot(dx*0.5, dy*0.25), 1e-13),
            'std_dev %r', got.std_dev)
    if container in ('list', 'array'):
        require(all(a is b for a, b in zip(arg, args)), 'argument modified')
    return 'fsum'


def run_fsum(task, ctx):
    _, tier = task
    for n in range(0, 5):
        for kinds in itertools.product('xyeci', repeat=n):
            for c in ['list', 'tuple', 'iterator', 'generator', 'array']:
                sets = itertools.product(FSUM_VALUES, repeat=n) if n <= 2 else [
                    FSUM_VALUES[:n], FSUM_VALUES[::-1][:n]]
                for values in sets:
                    yield ['fsum', kinds, c, values or [1.0]]


########################################
# Many arguments (functions that accept any number of them)

def check_many(case):
    """Calls with various numbers of arguments, some of them uncertain."""
    _, name, counts, which = case
    for n in counts:
        values = [((7*i) % 11-5)*0.25+0.125 for i in range(n)]
        uncertain = {'all': range(n), 'first': [0], 'last': [n-1],
                     'middle': [n//2], 'even': range(0, n, 2),
                     'tail': range(n//2, n)}[which]
        args, variables = list(values), {}
        for i in uncertain:
            args[i] = variables[i] = ufloat(values[i], 0.5)
        if name == 'hypot':
            got, ref = umath.hypot(*args), math.hypot(*values)
            expected = {i: values[i]/ref for i in variables}
        else:
            got, ref = umath.fsum(args), math.fsum(values)
            expected = {i: 1.0 for i in variables}
        require(same(got.nominal_value, ref), 'value %r instead of %r for %d '
                'arguments', got.nominal_value, ref, n)
        ders = got.derivatives
        require(len(ders) == len(variables), '%d derivatives', len(ders))
        for i, x in variables.items():
            require(close(ders[x], expected[i], 1e-13), 'derivative %d of %d: '
                    '%r instead of %r', i, n, ders[x], expected[i])
    return 'many arguments'


def run_many(task, ctx):
    _, tier, name = task
    top = 70 if tier == 'quick' else 300
    for which in ['all', 'first', 'last', 'middle', 'even', 'tail']:
        for n in itertools.chain(range(1, top), [1000, 1025]):
            yield ['many', name, [n], which]
        # In histories (argument counts that grow or shrink):
        for counts in itertools.permutations([1, 2, 3, 5, 9, 40], 3):
            yield ['many', name, counts, which]


########################################
# Compositions

POINTS = {'acos': 0.3, 'acosh': 2.5, 'asin': 0.3, 'atanh': 0.3}
COMPOSE = [n for n in UNARY if n not in ('gamma', 'lgamma')]


def check_compose(case):
    how, f, g, v = case[1:]
    x = ufloat(v, 0.25)
    try:
        inner = getattr(math, g)(v)
        value = getattr(math, f)(inner if how == 'f(g(x))' else v)
    except (ValueError, OverflowError):
        return 'outside the domain'
    gx = getattr(umath, g)(x)
    dg = DERIVATIVES[g](v)[0]
    if how == 'f(g(x))':
        r = getattr(umath, f)(gx)
        df = DERIVATIVES[f](inner)[0]
        if df is ANY or dg is ANY or df is UNDEF or dg is UNDEF:
            return 'singular'
        d = df*dg
        nominal = value
        scale = 0
    elif how == 'f(x)*g(x)':
        r = getattr(umath, f)(x)*gx
        df = DERIVATIVES[f](v)[0]
        nominal = value*inner
        if df is ANY or dg is ANY or df is UNDEF or dg is UNDEF:
            return 'singular'
        d = df*inner+dg*value
        scale = to_float(abs(df*inner)+abs(dg*value))
    elif how == 'atan2':
        y = getattr(umath, f)(x)
        r = umath.atan2(y, gx)
        nominal = math.atan2(value, inner)
        df = DERIVATIVES[f](v)[0]
        if df is ANY or dg is ANY or df is UNDEF or dg is UNDEF:
            return 'singular'
        d0, d1 = d_atan2(value, inner)
        if d0 is ANY or d0 is UNDEF:
            return 'singular'
        d = d0*df+d1*dg
        scale = to_float(abs(d0*df)+abs(d1*dg))
    require(same(r.nominal_value, nominal), 'nominal value %r instead of %r',
            r.nominal_value, nominal)
    verify_result(r, nominal, [(x, num(d), scale)], 1e-11)
    return how


def run_compose(task, ctx):
    _, tier, f = task
    points = [0.3, -0.4, 1.7, 2.5] if tier == 'quick' else [
        0.3, -0.4, 1.7, 2.5, 0.05, -3.3, 8.5, 0.95, -0.99, 1e-6, 50.0]
    for how, g, v in itertools.product(['f(g(x))', 'f(x)*g(x)', 'atan2'],
                                       COMPOSE, points):
        yield ['compose', how, f, g, v]


RUN = {'single': run_single, 'binary': run_binary, 'hypot': run_hypot,
       'plain': run_plain, 'constant': run_constant, 'parts': run_parts,
       'fsum': run_fsum, 'many': run_many, 'compose': run_compose}
CHECK = {'single': check_single, 'plain': check_plain, 'names': check_names,
         'constant': check_constant, 'parts': check_parts,
         'fsum': check_fsum, 'many': check_many, 'compose': check_compose}


def tasks(tier):
    out = [['single', tier, n] for n in UNARY]
    out += [['binary', tier, n, v] for n in BINARY for v in BINARY_VALUES]
    out += [['hypot', tier, n] for n in (1, 3, 4)]
    out += [['plain', tier, n] for n in ALL]
    out += [['constant', tier], ['fsum', tier]]
    out += [['many', tier, 'hypot'], ['many', tier, 'fsum']]
    out += [['parts', tier, n] for n in ('modf', 'ldexp', 'frexp')]
    out += [['compose', tier, f] for f in COMPOSE]
    return out


def run_task(task, ctx):
    case = None
    for case in RUN[task[0]](task, ctx):
        if case[0] in ('single', 'plain') and not hasattr(math, case[1]):
            continue
        with ctx.case(case):
            ctx.outcome(CHECK[case[0]](case))
        ctx.state(json.dumps(case))
        ctx.traces += 1
        ctx.transitions += 1
        if ctx.full:
            return
    if case is not None:
        ctx.sample(case)


def replay(case, ctx):
    CHECK[case[0]](case)
