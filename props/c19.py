"""C19: functions of arrays wrapped with wrap_array_func().

The reference is a table of functions of arrays with their analytic Jacobian
(a tensor), applied to the nominal values of the array and to the derivatives
of its elements.
"""
import functools
import itertools
import json
import math
import warnings

import numpy

from uncertainties import ufloat, UFloat, unumpy
from uncertainties.unumpy.core import wrap_array_func

from mc.run import require, Mismatch

ID = 'C19'
LEVEL = 'model_checking'
RULE = ('a state is a distinct (function, shape, kinds of the elements, '
        'container, history); a transition is one call of a wrapped function; '
        'a trace is one call whose values and derivatives are compared with '
        'the analytic ones')
ASSUMPTIONS = ['the derivatives are numerical: 1e-4 of their scale is '
               'considered accurate for the smooth functions and values of '
               'the tables', 'sizes above 64 behave like the explored ones']

TOL = 1e-4


########################################
# Functions of an array: f(array, *args, **kwargs), and the derivative of the
# result when the array a changes by d

def f_inplace(a):
    a *= a
    a += 1
    return a


def f_inplace_copy(a):
    out = a*3
    a[...] = 0
    return out


def f_scale(a, factor=2.0, *more, **kwargs):
    out = numpy.asarray(a)*factor
    for m in more:
        out = out+m*numpy.asarray(a)**2
    for k in sorted(kwargs):
        out = out*kwargs[k]
    return out


def d_scale(a, d, factor=2.0, *more, **kwargs):
    out = d*factor
    for m in more:
        out = out+m*2*a*d
    for k in sorted(kwargs):
        out = out*kwargs[k]
    return out


def arr(x):
    return numpy.asarray(x, dtype=float)


class Tripled(object):
    def __call__(self, a):
        return 3*a


FUNCTIONS = {
    'identity': (lambda a: a, lambda a, d: d),
    'copy': (lambda a: a.copy(), lambda a, d: d),
    'view': (lambda a: a[::-1], lambda a, d: d[::-1]),
    'transpose': (lambda a: a.T, lambda a, d: d.T),
    'square': (lambda a: numpy.asarray(a)**2, lambda a, d: 2*a*d),
    'exp': (lambda a: numpy.exp(a/4), lambda a, d: numpy.exp(a/4)*d/4),
    'sin': (numpy.sin, lambda a, d: numpy.cos(a)*d),
    'sum': (lambda a: a.sum(), lambda a, d: d.sum()),
    'sum 0-d': (lambda a: numpy.array(a.sum()), lambda a, d: d.sum()),
    'prod': (lambda a: arr(a).prod(),
             lambda a, d: sum(d.flat[i]*numpy.delete(a.ravel(), i).prod()
                              for i in range(a.size))),
    'axis': (lambda a: arr(a).sum(axis=0), lambda a, d: d.sum(axis=0)),
    'cumsum': (lambda a: numpy.cumsum(arr(a)), lambda a, d: numpy.cumsum(d)),
    'sort': (lambda a: numpy.sort(arr(a), axis=None),
             lambda a, d: d.ravel()[numpy.argsort(a, axis=None,
                                                  kind='stable')]),
    'outer': (lambda a: numpy.outer(a, a),
              lambda a, d: numpy.outer(a, d)+numpy.outer(d, a)),
    'norm': (lambda a: numpy.sqrt((arr(a)**2).sum()),
             lambda a, d: (a*d).sum()/math.sqrt((a**2).sum())),
    'first': (lambda a: a.ravel()[:1] if type(a) is numpy.ndarray else
              arr(a).ravel()[:1], lambda a, d: d.ravel()[:1]),
    'none': (lambda a: arr(a).ravel()[:0], lambda a, d: d.ravel()[:0]),
    'constant': (lambda a: numpy.array([1.5, 2.0]),
                 lambda a, d: numpy.zeros(2)),
    'integers': (lambda a: numpy.arange(3), lambda a, d: numpy.zeros(3)),
    'stack': (lambda a: numpy.stack([arr(a), -arr(a)**2]),
              lambda a, d: numpy.stack([d, -2*a*d])),
    'in place': (f_inplace, lambda a, d: 2*a*d),
    'partial': (functools.partial(numpy.multiply, 3.0), lambda a, d: 3*d),
    'object': (Tripled(), lambda a, d: 3*d),
    'cleared': (f_inplace_copy, lambda a, d: 3*d),
    'scale': (f_scale, d_scale),
}
MATRIX_FUNCTIONS = {
    'inv': (numpy.linalg.inv,
            lambda a, d: -numpy.linalg.inv(a).dot(d).dot(numpy.linalg.inv(a))),
    'det': (numpy.linalg.det,
            lambda a, d: numpy.linalg.det(a)*numpy.trace(
                numpy.linalg.inv(a).dot(d))),
    'dot': (lambda a: numpy.dot(a, a), lambda a, d: a.dot(d)+d.dot(a)),
    'trace': (lambda a: numpy.trace(arr(a)), lambda a, d: numpy.trace(d)),
    'diag': (lambda a: numpy.diag(arr(a)), lambda a, d: numpy.diag(d)),
}
LINEAR = {'identity', 'copy', 'view', 'transpose', 'sum', 'sum 0-d', 'axis',
          'cumsum', 'first', 'none', 'constant', 'integers', 'cleared',
          'trace', 'diag'}
ALL = dict(FUNCTIONS, **MATRIX_FUNCTIONS)

VALUES = {
    (): [2.5],
    (1,): [-1.25],
    (2,): [0.75, 3.0],
    (3,): [1.5, -2.0, 0.5],
    (1, 2): [1.0, 2.5],
    (2, 1): [-3.0, 0.25],
    (2, 2): [1.0, 2.0, 3.0, -4.0],
    (2, 3): [1.0, -0.5, 2.0, 0.25, 3.0, -1.0],
    (1, 1, 2): [2.0, -1.0],
}
# Larger arrays: distinct values around 1, matrices with a large diagonal
LARGE = {(n,): [0.5+(13*i % n)/n for i in range(n)] for n in (7, 20, 33, 64)}
LARGE.update({(a, b): [0.5+(11*(b*i+j) % (a*b))/(a*b)+4*(i == j)
                       for i in range(a) for j in range(b)]
              for (a, b) in ((3, 3), (4, 4), (6, 6), (3, 7), (12, 2))})
LARGE[2, 3, 4] = LARGE[2, 2, 2, 3] = [0.5+(13*i % 24)/24 for i in range(24)]
ALL_VALUES = dict(VALUES)
ALL_VALUES.update(LARGE)
KINDS = 'USCDXPZ'


class Elements(object):

    def __init__(self):
        self.shared = ufloat(2.0, 0.125)
        self.other = ufloat(-1.0, 0.0625)
        self.exact = ufloat(3.0, 0)

    def make(self, kind, value, pos):
        if kind == 'U':
            return ufloat(value, 0.25*(pos+1))
        if kind == 'S':
            return self.shared*(value/2) if value else self.shared-2
        if kind == 'C':
            return (self.shared+self.other*(pos+1))+(value-2+(pos+1))
        if kind == 'D':
            return self.shared*self.other*self.exact+(value+6)
        if kind == 'X':
            return ufloat(value, 0)
        if kind == 'P':
            return value
        if kind == 'Z':  # no dependence left
            return self.shared-self.shared+value
        raise ValueError(kind)


def obj(elements, shape):
    a = numpy.empty(len(elements), dtype=object)
    for i, e in enumerate(elements):
        a[i] = e
    return a.reshape(shape)


def readonly(a):
    a.setflags(write=False)
    return a


def strided(a):
    if not a.shape:
        return a
    b = numpy.empty(tuple(2*n for n in a.shape), dtype=object)
    where = tuple(slice(None, None, 2) for _ in a.shape)
    b[where] = a
    return b[where]


CONTAINERS = {
    'array': lambda a: a,
    'fortran': numpy.asfortranarray,
    'strided': strided,
    'read-only': readonly,
    'matrix': lambda a: a.view(numpy.matrix),
    'umatrix': lambda a: a.view(unumpy.matrix),
}
ARGS = [[[], {}], [[3.0], {}], [[], {'factor': -1.5}], [[0.5, 2.0], {}],
        [[1.0, 0.25, -1.0], {'z': 4.0}], [[], {'b': 2.0}],
        [[], {'factor': 0.0}], [[2.0], {'func': 3.0, 'a2': 0.5}]]


def snapshot(elements):
    return [(id(e), e.nominal_value, dict(e.derivatives), e.std_dev)
            if isinstance(e, UFloat) else repr(e) for e in elements]


def values_of(elements, shape):
    return numpy.array([e.nominal_value if isinstance(e, UFloat) else e
                        for e in elements], dtype=float).reshape(shape)


def variables_of(elements):
    out = {}
    for e in elements:
        if isinstance(e, UFloat):
            for v in e.derivatives:
                out[id(v)] = v
    return out


def direction(elements, shape, v):
    return numpy.array([float(e.derivatives.get(v, 0))
                        if isinstance(e, UFloat) else 0.
                        for e in elements], dtype=float).reshape(shape)


def compare(result, name, elements, shape, args, kwargs, matrix, what,
            rtol=TOL):
    f, df = ALL[name]
    a = values_of(elements, shape)
    base = numpy.matrix(a) if matrix else a
    expected = f(base.copy(), *args, **kwargs)
    variables = variables_of(elements)
    if not variables:
        require(type(result) is type(expected), '%s: %s instead of %s', what,
                type(result), type(expected))
        require(numpy.shape(result) == numpy.shape(expected) and
                (numpy.asarray(result) == numpy.asarray(expected)).all() and
                getattr(result, 'dtype', None) == getattr(
                    expected, 'dtype', None),
                '%s: %r instead of %r', what, result, expected)
        return
    require(numpy.shape(result) == numpy.shape(expected), '%s: shape %s '
            'instead of %s', what, numpy.shape(result), numpy.shape(expected))
    flat = list(numpy.asarray(result, dtype=object).flat)
    require(isinstance(result, numpy.matrix) ==
            isinstance(expected, numpy.matrix), '%s: type %s', what,
            type(result))
    require(isinstance(result, (UFloat, numpy.ndarray)), '%s: type %s', what,
            type(result))
    wanted = list(numpy.asarray(expected, dtype=float).flat)
    for x, y in zip(flat, wanted):
        require(isinstance(x, UFloat), '%s: %s in the result', what, type(x))
        require(type(x.nominal_value) in (float, numpy.float64) or
                not isinstance(x.nominal_value, UFloat), '%s', what)
        require(x.nominal_value == y, '%s: %r instead of %r', what,
                x.nominal_value, y)
        require(set(map(id, x.derivatives)) <= set(variables),
                '%s: unrelated variable', what)
    for v in variables.values():
        d = direction(elements, shape, v)
        ref = numpy.asarray(df(a, d, *args, **kwargs), dtype=float)
        ref = ref.ravel()
        scale = max([abs(x) for x in ref]+[abs(d).max(initial=0), 1e-300])
        if name not in LINEAR:
            scale = max(scale, abs(d).max()*max(1, abs(a).max()))
        for i, x in enumerate(flat):
            g = float(x.derivatives.get(v, 0.))
            require(abs(g-ref[i]) <= rtol*scale, '%s: derivative of [%d] with '
                    'respect to %r: %r instead of %r', what, i, v, g, ref[i])
            if name in LINEAR and ref[i] == 0 and name != 'cumsum':
                if name not in ('sum', 'sum 0-d', 'axis', 'trace'):
                    require(g == 0, '%s: dependence on a variable: %r', what,
                            g)
    for x in flat:
        s = math.sqrt(math.fsum((float(d)*v.std_dev)**2
                                for v, d in x.derivatives.items()))
        require(abs(x.std_dev-s) <= 1e-9*s, '%s: standard deviation %r '
                'instead of %r', what, x.std_dev, s)


def spy(f, log):
    """The same function, which records what it is called with."""
    def function(a, *args, **kwargs):
        """Doc of function."""
        log.append((type(a), getattr(a, 'dtype', None), numpy.shape(a), args,
                    kwargs))
        require(not isinstance(a, unumpy.matrix) and a.dtype == float and
                not any(isinstance(x, UFloat) for x in a.flat),
                'the function received %s of %s', type(a), a.dtype)
        return f(a, *args, **kwargs)
    return function


def check_call(case):
    _, name, shape, kinds, container, args = case
    shape = tuple(shape)
    args, kwargs = args
    factory = Elements()
    # (The deviations are smaller than the scale of the functions)
    elements = [factory.make(k, x, i % 6)
                for i, (k, x) in enumerate(zip(kinds, ALL_VALUES[shape]))]
    a = CONTAINERS[container](obj(elements, shape))
    before = snapshot(elements)
    log = []
    g = wrap_array_func(spy(ALL[name][0], log))
    require(g.__name__ == 'function', 'name %r', g.__name__)
    what = '%s(%s)' % (name, container)
    matrix = container in ('matrix', 'umatrix')
    r = g(a, *args, **kwargs)
    require(snapshot(elements) == before and snapshot(a.flat) == before or
            container in ('fortran', 'strided') and
            snapshot(elements) == before and all(
                x is y for x, y in zip(a.flat, elements)),
            '%s modified its argument', what)
    for entry in log:
        require(entry[2] == a.shape and entry[3] == tuple(args) and
                entry[4] == kwargs, '%s: the function was called with %r',
                what, entry)
        # (NumPy itself transforms 0-d arrays into scalars)
        require(entry[0] is (numpy.matrix if matrix else numpy.ndarray)
                or not shape and entry[0] is numpy.float64,
                '%s: the function was called with %s', what, entry[0])
    require(log, '%s: the function was not called', what)
    compare(r, name, elements, a.shape, args, kwargs, matrix, what)
    # The wrapped function can be used again, and results are correlated
    r2 = g(a, *args, **kwargs)
    compare(r2, name, elements, a.shape, args, kwargs, matrix, what)
    if variables_of(elements):
        for x, y in zip(numpy.asarray(r, dtype=object).flat,
                        numpy.asarray(r2, dtype=object).flat):
            require((x-y).std_dev <= 1e-9*x.std_dev, '%s: two identical '
                    'results are not correlated', what)
        # Live standard deviations
        for v in variables_of(elements).values():
            v.std_dev = 0.5
        compare(r, name, elements, a.shape, args, kwargs, matrix, what)
    return name


########################################
# Special values: only the elements that depend on the special variable are
# affected

SPECIAL = {'nan dev': (2.0, float('nan')), 'inf dev': (2.0, float('inf')),
           'nan': (float('nan'), 0.5), 'inf': (float('inf'), 0.5),
           'nan exact': (float('nan'), 0), 'big dev': (2.0, 1e300),
           'small dev': (2.0, 1e-300), 'zero': (0.0, 0.0),
           'zero dev': (0.0, 0.25), 'small': (1e-200, 1e-210),
           'large': (1e200, 1e190), 'zero small': (0.0, 1e-250)}


def check_special(case):
    _, name, pos, container, special = case
    f, df = ALL[name]
    z = ufloat(*SPECIAL[special])
    x = ufloat(1.5, 0.25)
    elements = [x, x*2-5, 3.0, ufloat(0.5, 0.125)]
    elements[pos] = z
    a = CONTAINERS[container](obj(elements, (2, 2)))
    r = wrap_array_func(f)(a)
    flat = list(numpy.asarray(r, dtype=object).flat)
    # Position of each element in the result
    index = list(numpy.asarray(f(numpy.arange(4.).reshape((2, 2)))).flat)
    for got, i in zip(flat, index):
        i = int(abs(i)) if name != 'cleared' else int(i/3)
        factor = 3 if name == 'cleared' else 1
        e = elements[i]
        if i != pos:
            require(got.nominal_value == factor*(
                e.nominal_value if isinstance(e, UFloat) else e),
                '%s: nominal value of [%d]: %r', name, i, got)
            s = factor*e.std_dev if isinstance(e, UFloat) else 0
            require(abs(got.std_dev-s) <= 1e-4*s, '%s: element %d: %r '
                    'instead of %r*%d', name, i, got, e, factor)
            require(not got.derivatives.get(z, 0), '%s: element %d depends on '
                    'an unrelated variable', name, i)
        elif special in ('nan', 'inf', 'nan exact'):
            require(repr(got.nominal_value) == repr(e.nominal_value),
                    'nominal value %r', got.nominal_value)
        else:
            require(got.nominal_value == factor*e.nominal_value,
                    'nominal value %r', got.nominal_value)
            s = factor*e.std_dev
            if special == 'nan dev':
                require(math.isnan(got.std_dev), 'deviation %r', got.std_dev)
            elif special == 'inf dev':
                require(got.std_dev == s, 'deviation %r', got.std_dev)
            elif special != 'small dev':
                require(abs(got.std_dev-s) <= 1e-4*s, 'element %d: %r instead '
                        'of %r*%d', i, got, e, factor)
            else:
                require(abs(got.std_dev-s) <= 1e-4*s, 'element %d: %r', i, got)
    return special


########################################
# Other behaviours

class Err(Exception):
    pass


def check_exception(case):
    """An exception at any evaluation propagates; later calls are correct."""
    _, kinds, nth = case
    factory = Elements()
    elements = [factory.make(k, x, i)
                for i, (k, x) in enumerate(zip(kinds, VALUES[(3,)]))]
    a = obj(elements, (3,))
    count = [0]

    def f(x):
        count[0] += 1
        if count[0] == nth:
            raise Err('evaluation %d' % nth)
        return x*x
    g = wrap_array_func(f)
    before = snapshot(elements)
    try:
        r = g(a)
    except Err:
        require(count[0] == nth, 'wrong exception')
    else:
        require(count[0] < nth, 'exception lost')
        compare(r, 'square', elements, (3,), [], {}, False, 'square')
    require(snapshot(elements) == before, 'arguments modified')
    count[0] = 100
    compare(g(a), 'square', elements, (3,), [], {}, False, 'square')
    return 'exception'


def check_plain(case):
    """Arrays of ordinary numbers."""
    _, name, dtype, shape = case
    shape = tuple(shape)
    n = len(VALUES[shape])
    values = [True, False, True, True, False, True][:n] if dtype == 'bool' \
        else [3, 1, 4, -2, 5, 9][:n]
    a = numpy.array(values, dtype=dtype).reshape(shape)
    before = a.copy()
    r = wrap_array_func(ALL[name][0])(a)
    require((a == before).all() and a.dtype == before.dtype, 'array modified')
    e = ALL[name][0](before.astype(float))
    require(type(r) is type(e) and numpy.shape(r) == numpy.shape(e) and
            numpy.array_equal(r, e), '%s: %r instead of %r', name, r, e)
    return 'plain'


def check_empty(case):
    _, name, shape = case
    a = numpy.empty(shape, dtype=object)
    r = wrap_array_func(ALL[name][0])(a)
    e = ALL[name][0](numpy.empty(shape))
    require(numpy.shape(r) == numpy.shape(e) and numpy.array_equal(r, e),
            '%s: %r instead of %r', name, r, e)
    return 'empty'


def check_compose(case):
    """Wrapped functions of results of wrapped functions, and arithmetic."""
    _, n1, n2, kinds = case
    factory = Elements()
    shape = (2, 2)
    elements = [factory.make(k, x, i)
                for i, (k, x) in enumerate(zip(kinds, VALUES[shape]))]
    a = obj(elements, shape)
    r1 = wrap_array_func(ALL[n1][0])(a)
    if not variables_of(elements):
        r1 = obj(list(numpy.asarray(r1, dtype=object).flat), numpy.shape(r1))
    r2 = wrap_array_func(ALL[n2][0])(numpy.asarray(r1, dtype=object)+a)
    nominal = values_of(elements, shape)
    v1 = numpy.asarray(ALL[n1][0](nominal.copy()), dtype=float)
    mid = v1+nominal
    expected = numpy.asarray(ALL[n2][0](mid.copy()), dtype=float)
    flat = list(numpy.asarray(r2, dtype=object).flat)
    require(len(flat) == expected.size, 'size %d', len(flat))
    for x, y in zip(flat, expected.flat):
        x0 = x.nominal_value if isinstance(x, UFloat) else x
        require(abs(x0-y) <= 1e-12*max(1, abs(expected).max(initial=0)),
                '%s(%s): %r instead of %r', n2, n1, x0, y)
    for v in variables_of(elements).values():
        d = direction(elements, shape, v)
        d1 = numpy.asarray(ALL[n1][1](nominal, d), dtype=float)
        dm = d1+d
        ref = numpy.asarray(ALL[n2][1](mid, dm), dtype=float)
        scale = max(abs(ref).max(initial=0), abs(dm).max()*max(1, abs(mid).max()))
        for x, y in zip(flat, ref.ravel()):
            g = x.derivatives.get(v, 0.) if isinstance(x, UFloat) else 0.
            require(abs(g-y) <= 10*TOL*scale, '%s(%s): derivative %r instead '
                    'of %r', n2, n1, g, y)
    return 'composition'


########################################

def patterns(n, tier):
    if n <= (3 if tier == 'quick' else 4):
        for p in itertools.product(KINDS, repeat=n):
            yield ''.join(p)
        return
    kinds = 'USP' if n <= 4 else 'UP'
    if tier == 'thorough':
        kinds = 'USCP'
    for p in itertools.product(kinds, repeat=n):
        yield ''.join(p)
    for p in sorted({k*n for k in KINDS} | {
            (KINDS*n)[i:i+n] for i in range(len(KINDS))}):
        yield p


def tasks(tier):
    out = []
    for name in ALL:
        for shape in VALUES:
            if name in MATRIX_FUNCTIONS and shape != (2, 2):
                continue
            if not shape and name in ('view', 'axis', 'diag', 'cleared'):
                continue
            out.append(['call', tier, name, list(shape)])
    out += [['large', tier, list(shape)] for shape in LARGE]
    out += [['special', tier], ['exception', tier], ['plain', tier],
            ['empty', tier]]
    out += [['compose', tier, n] for n in ('square', 'sin', 'inv', 'transpose',
                                           'in place', 'dot')]
    return out


def run_call(task, ctx):
    _, tier, name, shape = task
    n = len(VALUES[tuple(shape)])
    for kinds in patterns(n, tier):
        simple = len(set(kinds)) <= 2 or tier == 'thorough'
        for container in CONTAINERS:
            if container in ('matrix', 'umatrix') and len(shape) != 2:
                continue
            if container != 'array' and not simple:
                continue
            if name == 'in place' and container in ('matrix', 'umatrix'):
                continue  # * is not elementwise
            if name == 'sort' and len(set(VALUES[tuple(shape)])) != n:
                continue
            for args in ARGS if name == 'scale' else ARGS[:1]:
                yield ['call', name, shape, kinds, container, args]


def run_large(task, ctx):
    _, tier, shape = task
    shape = tuple(shape)
    n = len(LARGE[shape])
    words = ['U', 'US', 'USP', 'XUCSDPZ', 'P'*(n-1)+'U', 'UP', 'UX', 'CD']
    if tier == 'thorough':
        words += [''.join(p) for k in (2, 3)
                  for p in itertools.product(KINDS, repeat=k)]
    for name, word in itertools.product(ALL, words):
        if name in MATRIX_FUNCTIONS and (len(shape) != 2 or name != 'diag' and
                                         shape[0] != shape[1]):
            continue
        if name == 'outer' and n > 24 and len(word) < 7:
            continue  # (slow)
        if name == 'prod' and n > 12:
            continue  # (not linear enough for a numerical derivative)
        kinds = (word*n)[:n]
        for container in CONTAINERS:
            if container in ('matrix', 'umatrix') and (
                    len(shape) != 2 or name == 'in place'):
                continue
            if container in ('fortran', 'read-only') and word != 'US':
                continue
            for args in ARGS[4:5] if name == 'scale' else ARGS[:1]:
                yield ['large', name, list(shape), kinds, container, args]


def run_special(task, ctx):
    for name in ('identity', 'copy', 'view', 'transpose', 'cleared'):
        for pos, container, special in itertools.product(
                range(4), CONTAINERS, SPECIAL):
            yield ['special', name, pos, container, special]


def run_exception(task, ctx):
    for p in itertools.product(KINDS, repeat=3):
        for nth in range(1, 7):
            yield ['exception', ''.join(p), nth]


def run_plain(task, ctx):
    for name, dtype, shape in itertools.product(
            ALL, ('float64', 'float32', 'int64', 'int8', 'uint8', 'bool',
                  'object'), VALUES):
        if name in MATRIX_FUNCTIONS and (shape != (2, 2) or dtype == 'bool'):
            continue
        if not shape and name in ('view', 'axis'):
            continue
        yield ['plain', name, dtype, list(shape)]


def run_empty(task, ctx):
    for name, shape in itertools.product(
            ('identity', 'copy', 'view', 'transpose', 'square', 'exp', 'sum',
             'cumsum', 'none', 'in place', 'integers'),
            ([0], [0, 2], [2, 0], [1, 0, 3])):
        yield ['empty', name, shape]


def run_compose(task, ctx):
    _, tier, n1 = task
    for n2 in ('square', 'sin', 'transpose', 'sum', 'outer', 'dot', 'in place',
               'identity', 'scale', 'none', 'stack'):
        for p in itertools.product('USCP' if tier == 'quick' else KINDS,
                                   repeat=4):
            yield ['compose', n1, n2, ''.join(p)]


RUN = {'call': run_call, 'large': run_large, 'special': run_special, 'exception': run_exception,
       'plain': run_plain, 'empty': run_empty, 'compose': run_compose}
CHECK = {'call': check_call, 'large': check_call, 'special': check_special,
         'exception': check_exception, 'plain': check_plain,
         'empty': check_empty, 'compose': check_compose}


def run_task(task, ctx):
    warnings.simplefilter('ignore')
    numpy.seterr(all='ignore')
    case = None
    for case in RUN[task[0]](task, ctx):
        with ctx.case(case):
            ctx.outcome(CHECK[case[0]](case))
        ctx.state(json.dumps(case))
        ctx.traces += 1
        ctx.transitions += 1
        if ctx.full:
            return
    if case is not None:
        ctx.sample(case)


def replay(case, ctx):
    warnings.simplefilter('ignore')
    numpy.seterr(all='ignore')
    CHECK[case[0]](case)
