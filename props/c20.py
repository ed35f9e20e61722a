"""C20: NumPy aggregations, ordering, masking and storage of arrays.

The reference is the same NumPy function applied to an array of rational dual
numbers (a rational value and one rational derivative per variable), which are
implemented here: NumPy is trusted, not the numbers with uncertainties.
"""
import copy
import io
import itertools
import json
import math
import pickle
import warnings
from fractions import Fraction as F

import numpy

from uncertainties import ufloat, UFloat, unumpy, ufloat_fromstr
from uncertainties import covariance_matrix

from mc.run import require

ID = 'C20'
LEVEL = 'model_checking'
RULE = ('a state is a distinct (function or storage, shape, kinds of the '
        'elements, container, mask); a transition is one NumPy operation; a '
        'trace is one operation whose result (structure, values, derivatives) '
        'is the one of the same operation on exact rational dual numbers')
ASSUMPTIONS = ['larger arrays behave like those of up to 4 elements',
               'NumPy functions that need float elements, or methods like '
               'sqrt() or conjugate(), are not supported by the package']

TOL = F(1, 10**12)


########################################
# Rational dual numbers

class Dual(object):
    """Ordered by value; equal only if the difference is exactly 0."""

    __array_priority__ = -1

    def __init__(self, v, d=None):
        self.v = F(v)
        self.d = {k: x for k, x in (d or {}).items() if x}

    @staticmethod
    def of(o):
        if isinstance(o, Dual):
            return o
        if isinstance(o, numpy.generic):
            o = o.item()
        if isinstance(o, (int, float, F)):
            return Dual(o)
        return None

    def combine(self, o, v, a, b):
        d = {k: a*x for k, x in self.d.items()}
        for k, x in o.d.items():
            d[k] = d.get(k, 0)+b*x
        return Dual(v, d)

    def __add__(self, o):
        o = Dual.of(o)
        return NotImplemented if o is None else self.combine(
            o, self.v+o.v, 1, 1)
    __radd__ = __add__

    def __sub__(self, o):
        o = Dual.of(o)
        return NotImplemented if o is None else self.combine(
            o, self.v-o.v, 1, -1)

    def __rsub__(self, o):
        o = Dual.of(o)
        return NotImplemented if o is None else o-self

    def __mul__(self, o):
        o = Dual.of(o)
        return NotImplemented if o is None else self.combine(
            o, self.v*o.v, o.v, self.v)
    __rmul__ = __mul__

    def __truediv__(self, o):
        o = Dual.of(o)
        return NotImplemented if o is None else self.combine(
            o, self.v/o.v, 1/o.v, -self.v/o.v**2)

    def __rtruediv__(self, o):
        o = Dual.of(o)
        return NotImplemented if o is None else o/self

    def __pow__(self, n):
        if isinstance(n, Dual):
            assert not n.d and n.v.denominator == 1
            n = int(n.v)
        n = int(n)
        r = Dual(1)
        for _ in range(abs(n)):
            r = r*self
        return r if n >= 0 else 1/r

    def __neg__(self):
        return self*-1

    def __pos__(self):
        return self*1

    def __abs__(self):
        return self if self.v >= 0 else -self

    def __lt__(self, o):
        o = Dual.of(o)
        return NotImplemented if o is None else self.v < o.v

    def __gt__(self, o):
        o = Dual.of(o)
        return NotImplemented if o is None else self.v > o.v

    def __eq__(self, o):
        o = Dual.of(o)
        if o is None:
            return NotImplemented
        e = self-o
        return e.v == 0 and not e.d

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r

    def __le__(self, o):
        o = Dual.of(o)
        return NotImplemented if o is None else self == o or self < o

    def __ge__(self, o):
        o = Dual.of(o)
        return NotImplemented if o is None else self == o or self > o

    def __bool__(self):
        return self != 0

    __hash__ = None

    def __repr__(self):
        return '%s%r' % (float(self.v), {k: float(x)
                                         for k, x in self.d.items()})


########################################
# Elements

KINDS = 'USCXPIN'


class Elements(object):

    def __init__(self):
        self.shared = ufloat(2.0, 0.125)
        self.other = ufloat(-1.0, 0.0625)

    def make(self, kind, value, pos):
        if kind == 'U':
            return ufloat(value, 0.25*(pos+1))
        if kind == 'S':
            return self.shared*(value/2) if value else self.shared-2
        if kind == 'C':
            return (self.shared+self.other*(pos+1))+(value-2+(pos+1))
        if kind == 'X':
            return ufloat(value, 0)
        if kind == 'P':
            return value
        if kind == 'I':
            return int(value) if value == int(value) else value
        if kind == 'N':
            return numpy.float64(value)
        raise ValueError(kind)


def variables_of(elements):
    out = {}
    for e in elements:
        if isinstance(e, UFloat):
            for v in e.derivatives:
                out[id(v)] = v
    return out


def dual(e):
    if isinstance(e, UFloat):
        return Dual(F(float(e.nominal_value)), {
            id(v): F(float(x)) for v, x in e.derivatives.items()
            if v.std_dev})  # Exact variables are like plain numbers
    return Dual(F(float(e)))


def obj(elements, shape):
    a = numpy.empty(len(elements), dtype=object)
    for i, e in enumerate(elements):
        a[i] = e
    return a.reshape(shape)


VALUES = {
    (1,): [[2.0]],
    (2,): [[3.0, -1.0], [0.5, 0.5]],
    (3,): [[1.5, -2.0, 4.0], [3.0, 3.0, 1.0], [2.0, 0.0, -1.0]],
    (2, 2): [[1.0, 4.0, -3.0, 2.0]],
    (1, 3): [[2.0, -1.0, 0.5]],
    (2, 1): [[-2.0, 4.0]],
    (1, 2, 2): [[1.0, 4.0, -3.0, 2.0]],
    (5,): [[1.0, 4.0, -3.0, 1.0, 0.25]],
    (2, 3): [[1.0, 4.0, -3.0, 1.0, 0.25, -8.0]],
    (3, 2): [[0.5, 4.0, -3.0, 0.5, 2.0, 0.0]],
    (2, 1, 3): [[1.0, 4.0, -3.0, 1.0, 0.25, -8.0]],
}


########################################
# Operations

def inplace(op):
    def f(a):
        b = a.copy()
        b = op(b)
        return b
    return f


def iadd(b):
    c = b
    b += b[::-1].copy()
    require(c is b, 'a += b does not work in place')
    return b


def imul(b):
    b *= 2
    b -= 1
    b /= 4
    return b


def add_at(a):
    b = a.ravel().copy()
    numpy.add.at(b, [0, 0], a.ravel()[-1])
    return b


def loop(a):
    s = 0
    for x in a.ravel():
        s = s+x*x
    return s


ANY = {
    'sum': lambda a: a.sum(), 'numpy.sum': numpy.sum,
    'sum axis': lambda a: a.sum(axis=0), 'sum last': lambda a: a.sum(axis=-1),
    'keepdims': lambda a: numpy.sum(a, axis=-1, keepdims=True),
    'mean': lambda a: a.mean(), 'numpy.mean': numpy.mean,
    'mean axis': lambda a: a.mean(axis=0),
    'mean last': lambda a: numpy.mean(a, axis=-1),
    'prod': lambda a: a.prod(), 'prod axis': lambda a: a.prod(axis=0),
    'cumsum': lambda a: a.cumsum(), 'cumprod': lambda a: a.cumprod(),
    'diff': lambda a: numpy.diff(a), 'outer': lambda a: numpy.outer(a, a),
    'add.reduce': lambda a: numpy.add.reduce(a),
    'add.accumulate': lambda a: numpy.add.accumulate(a),
    'subtract.outer': lambda a: numpy.subtract.outer(a, a),
    'multiply.reduce': lambda a: numpy.multiply.reduce(a),
    'square': numpy.square, 'negative': numpy.negative,
    'absolute': numpy.absolute, 'positive': numpy.positive,
    'python sum': lambda a: sum(a.ravel()), 'loop': loop,
    'max': lambda a: a.max(), 'min': lambda a: a.min(),
    'amax': lambda a: numpy.amax(a, axis=0),
    'amin': lambda a: numpy.amin(a, axis=-1), 'ptp': numpy.ptp,
    'argmax': lambda a: a.argmax(), 'argmin': lambda a: a.argmin(),
    'median': numpy.median,
    'python max': lambda a: max(a.ravel()),
    'python min': lambda a: min(a.ravel()),
    'sort': lambda a: numpy.sort(a, axis=None, kind='stable'),
    'sort axis': lambda a: numpy.sort(a, axis=-1, kind='stable'),
    'argsort': lambda a: numpy.argsort(a, axis=None, kind='stable'),
    'sorted': lambda a: sorted(a.ravel()),
    'reversed': lambda a: sorted(a.ravel(), reverse=True),
    'where': lambda a: numpy.where(a > 1, a, -a),
    'select': lambda a: a[a > 1].sum(), 'count': numpy.count_nonzero,
    'nonzero': lambda a: numpy.nonzero(a)[0],
    'maximum': lambda a: numpy.maximum(a, 1),
    'minimum': lambda a: numpy.minimum(1.5, a),
    'clip': lambda a: numpy.clip(a, -1, 1),
    'any >': lambda a: (a > 2).any(), 'all ==': lambda a: (a == a).all(),
    'equal': lambda a: numpy.array_equal(a, a.copy()),
    'reverse ==': lambda a: a.ravel() == a.ravel()[::-1],
    'reverse <=': lambda a: a.ravel() <= a.ravel()[::-1],
    'roll': lambda a: numpy.roll(a, 1), 'tile': lambda a: numpy.tile(a, 2),
    'repeat': lambda a: numpy.repeat(a, 2),
    'concatenate': lambda a: numpy.concatenate([a, a*2]),
    'stack': lambda a: numpy.stack([a, 1-a]),
    'append': lambda a: numpy.append(a, a.ravel()[0]),
    'kron': lambda a: numpy.kron(a, a), 'take': lambda a: a.take([0, -1]),
    'nansum': numpy.nansum, 'nanmean': numpy.nanmean,
    'weights': lambda a: numpy.average(
        a, weights=numpy.arange(1, a.size+1).reshape(a.shape)),
    'average': lambda a: numpy.average(a, axis=0),
    'polyval': lambda a: numpy.polyval(a.ravel(), 2),
    'polynomial': lambda a: numpy.polyval([1, -2, 0.5], a),
    'in place': inplace(iadd), 'in place scalar': inplace(imul),
    'add.at': add_at, 'transposed': lambda a: a.T,
    'tensordot': lambda a: numpy.tensordot(a, a, axes=a.ndim),
    'einsum': lambda a: numpy.einsum('...,...->...', a, a),
    'normalized': lambda a: a/numpy.sum(a*a),
    'centered': lambda a: a-a.mean(),
    'chi2': lambda a: ((a-1)**2/4).sum(),
    'float scalars': lambda a: numpy.float64(2)*a-a*numpy.float32(0.5)
    + numpy.int64(3),
    'float arrays': lambda a: numpy.arange(a.size).reshape(a.shape)*a
    + a/numpy.full(a.shape, 4.0)-numpy.ones(a.shape),
    'powers': lambda a: a**numpy.full(a.shape, 2),
}
ONE = {
    'dot': lambda a: a.dot(a), 'inner': lambda a: numpy.inner(a, a),
    'convolve': lambda a: numpy.convolve(a, a),
    'trapz': lambda a: numpy.trapz(a),
    'matmul': lambda a: a @ a[::-1],
    'vander': lambda a: a[:, None]**numpy.arange(3),
    'first times array': lambda a: a[0]*numpy.arange(3),
    'array times first': lambda a: numpy.array([1.5, 2.0])*a[0],
    'array minus first': lambda a: numpy.array([1.5, 2.0])-a[0],
    'first < array': lambda a: a[0] < numpy.array([1.0, 5.0]),
    'array < first': lambda a: numpy.array([1.0, 5.0]) < a[0],
    'scalar loop': lambda a: [numpy.float64(2)*x-numpy.int8(1) for x in a],
    'insert': lambda a: numpy.insert(a, 1, a[0]),
    'delete': lambda a: numpy.delete(a, 0),
    'searchsorted': lambda a: numpy.searchsorted(numpy.sort(a), 1.0),
}
TWO = {
    'trace': lambda a: a.trace(), 'matmul': lambda a: a @ a.T,
    'matrix_power': lambda a: numpy.linalg.matrix_power(a, 3)
    if a.shape[0] == a.shape[1] else a,
    'diag': lambda a: numpy.diag(a), 'triu': lambda a: numpy.triu(a),
    'hstack': lambda a: numpy.hstack([a, a]),
    'vstack': lambda a: numpy.vstack([a, a*a]),
    'tensordot 1': lambda a: numpy.tensordot(a, a.T, axes=1),
    'einsum ij': lambda a: numpy.einsum('ij,kj->ik', a, a),
    'dot vector': lambda a: a.dot(numpy.arange(a.shape[1])),
    'vector dot': lambda a: numpy.arange(a.shape[0]).dot(a),
    'det': lambda a: a[0, 0]*a[-1, -1]-a[0, -1]*a[-1, 0],
    'mean rows': lambda a: a-a.mean(axis=1, keepdims=True),
}
MATRIX = {
    'sum': lambda a: a.sum(), 'mean': lambda a: a.mean(),
    'sum axis': lambda a: a.sum(axis=0), 'mean last': lambda a: a.mean(axis=1),
    '*': lambda a: a*a.T, 'power': lambda a: a**2
    if a.shape[0] == a.shape[1] else a*a.T, 'trace': lambda a: a.trace(),
    'T': lambda a: a.T, '+': lambda a: a+a-1, 'A': lambda a: a.A,
    'A1': lambda a: a.A1, 'scalar *': lambda a: 2*a, '* scalar': lambda a: a*2,
    'row': lambda a: a[0], 'prod': lambda a: a.prod(),
    'max': lambda a: a.max(), 'argmin': lambda a: a.argmin(),
    'flatten': lambda a: a.flatten(), '-': lambda a: -a,
}


def compare(got, want, what):
    """Same structure, with the same values and derivatives."""
    if isinstance(want, (list, tuple)):
        require(type(got) is type(want) and len(got) == len(want),
                '%s: %r instead of %r', what, got, want)
        for g, w in zip(got, want):
            compare(g, w, what)
        return
    if isinstance(want, numpy.ma.MaskedArray):
        require(isinstance(got, numpy.ma.MaskedArray) and
                (numpy.ma.getmaskarray(got) ==
                 numpy.ma.getmaskarray(want)).all(),
                '%s: mask %r instead of %r', what, got, want)
        compare(list(got.compressed()), list(want.compressed()), what)
        return
    if want is numpy.ma.masked:
        require(got is want, '%s: %r instead of masked', what, got)
        return
    if isinstance(want, numpy.ndarray):
        require(isinstance(got, numpy.ndarray) and got.shape == want.shape and
                isinstance(got, numpy.matrix) ==
                isinstance(want, numpy.matrix) and got.dtype == want.dtype,
                '%s: %r instead of %r', what, got, want)
        if want.dtype != object:
            require((got == want).all(), '%s: %r instead of %r', what, got,
                    want)
            return
        for g, w in zip(got.flat, want.flat):
            compare(g, w, what)
        return
    if isinstance(want, (bool, numpy.bool_)):
        require(not isinstance(got, UFloat) and bool(got) == bool(want),
                '%s: %r instead of %r', what, got, want)
        return
    w = Dual.of(want)
    require(w is not None, '%s: unexpected %r', what, want)
    g = dual(got)
    require(isinstance(got, UFloat) or not w.d, '%s: uncertainty lost: %r '
            'instead of %r', what, got, want)
    scale = max(1, abs(w.v))
    require(abs(g.v-w.v) <= TOL*scale, '%s: %r instead of %r', what, got, w)
    for k in set(g.d) | set(w.d):
        x, y = g.d.get(k, 0), w.d.get(k, 0)
        require(abs(x-y) <= TOL*max(scale, abs(y)), '%s: derivatives of %r: '
                '%r instead of %r', what, got, g, w)


def group_of(name):
    return {'any': ANY, 'one': ONE, 'two': TWO, 'matrix': MATRIX}[name]


def build(case):
    shape, index, kinds = case
    factory = Elements()
    return [factory.make(k, x, i) for i, (k, x) in enumerate(
        zip(kinds, VALUES[tuple(shape)][index]))]


def strided(a):
    b = numpy.empty(tuple(2*n for n in a.shape), dtype=object)
    where = tuple(slice(None, None, 2) for _ in a.shape)
    b[where] = a
    return b[where]


CONTAINERS = {
    'array': lambda a: a,
    'strided': strided,
    'fortran': numpy.asfortranarray,
    'reversed': lambda a: a[::-1].copy()[::-1],
    'numpy.array': lambda a: numpy.array(a.tolist(), dtype=object),
    'masked': lambda a: numpy.ma.array(a),
}


def snapshot(elements):
    return [(id(e), e.nominal_value, dict(e.derivatives), e.std_dev)
            if isinstance(e, UFloat) else repr(e) for e in elements]


def check_operation(case):
    _, group, name, shape, index, kinds, container = case
    elements = build((shape, index, kinds))
    f = group_of(group)[name]
    make = {'matrix': lambda a: a.view(unumpy.matrix)}.get(
        container, CONTAINERS.get(container))
    reference = {'matrix': lambda a: a.view(numpy.matrix)}.get(
        container, CONTAINERS.get(container))
    a = make(obj(elements, tuple(shape)))
    r = reference(obj([dual(e) for e in elements], tuple(shape)))
    before = snapshot(elements)
    want = f(r)
    got = f(a)
    require(snapshot(elements) == before, '%s modified the elements', name)
    if isinstance(got, list) and got and name in ('sorted', 'reversed'):
        # The objects themselves
        require(sorted(map(id, got)) == sorted(map(id, elements)) or
                any(not isinstance(e, UFloat) for e in elements),
                '%s: other objects', name)
    compare(got, want, '%s(%s)' % (name, container))
    return group


########################################
# Masks

MASKED = {
    'sum': lambda m: m.sum(), 'mean': lambda m: m.mean(),
    'prod': lambda m: m.prod(), 'count': lambda m: m.count(),
    'compressed': lambda m: m.compressed(), 'times': lambda m: m*2+1,
    'self': lambda m: m-m.mean() if m.count() else m,
    'cumsum': lambda m: m.cumsum(), 'filled': lambda m: m.filled(0),
    'add': lambda m: m+m[::-1], 'select': lambda m: m[1:],
    'ma.sum': lambda m: numpy.ma.sum(m), 'ma.average':
        lambda m: numpy.ma.average(m, weights=[1, 2, 3]),
}


def check_masked(case):
    _, name, index, kinds, mask = case
    elements = build(((3,), index, kinds))
    f = MASKED[name]
    got = f(numpy.ma.array(obj(elements, (3,)), mask=mask))
    want = f(numpy.ma.array(obj([dual(e) for e in elements], (3,)),
                            mask=mask))
    compare(got, want, 'masked %s' % name)
    return 'masked'


NAN = float('nan')


def check_isnan(case):
    """Masking out the NaN nominal values (documented)."""
    _, kinds, how = case
    x = ufloat(2.0, 0.125)
    make = {'U': lambda i: ufloat(i+1.0, 0.25), 'S': lambda i: x*(i+1),
            'P': lambda i: i+0.5, 'n': lambda i: NAN,
            'N': lambda i: ufloat(NAN, 1), 'M': lambda i: x*NAN,
            'D': lambda i: ufloat(i+1.0, NAN), 'f': lambda i: numpy.float64(
                NAN), 'i': lambda i: i}
    elements = [make[k](i) for i, k in enumerate(kinds)]
    a = obj(elements, (len(kinds),))
    expected = [k in 'nNMf' for k in kinds]
    nan = unumpy.isnan(a)
    require(nan.dtype == bool and nan.tolist() == expected, 'isnan: %r', nan)
    kept = [e for e, n in zip(elements, expected) if not n]
    if not kept:
        return 'all NaN'
    if how == 'selection':
        mean = a[~nan].mean()
    else:
        mean = numpy.ma.array(a, mask=nan).mean()
    reference = sum(kept)/len(kept)
    gv = mean.nominal_value if isinstance(mean, UFloat) else float(mean)
    rv = reference.nominal_value if isinstance(reference, UFloat) else float(
        reference)
    nominal = sum(e.nominal_value if isinstance(e, UFloat) else e
                  for e in kept)/len(kept)
    require(abs(gv-nominal) <= 1e-12*max(1, abs(nominal)) and
            abs(rv-nominal) <= 1e-12*max(1, abs(nominal)),
            'mean %r instead of %r', gv, nominal)
    s = mean.std_dev if isinstance(mean, UFloat) else 0.
    shared = sum(i+1 for i, k in enumerate(kinds) if k == 'S')*0.125
    t = math.sqrt(shared**2+sum(0.25**2 for k in kinds if k == 'U'))/len(kept)
    if 'D' in kinds:
        require(math.isnan(s), 'deviation %r', s)
    else:
        require(abs(s-t) <= 1e-12, 'deviation %r instead of %r', s, t)
    return 'NaN mask'


########################################
# Storage

TEXT_VALUES = [0.0, -0.0, 1.0, -2.5, 0.1, 1/3., 1e-300, -1.7976931348623157e308,
               5e-324, 123456789.123456789, 1e22, NAN, float('inf'),
               -float('inf')]
TEXT_DEVS = [0.0, 0.01, 1/3., 1.0, 1e-320, 1e300, 12345.678, NAN,
             float('inf')]


def same(x, y):
    return x == y and math.copysign(1, x) == math.copysign(1, y) or (
        x != x and y != y)


def check_text(case):
    """savetxt() with %r, and loadtxt() (documented)."""
    _, v, s, shape, how = case
    v, s = float(v), float(s)
    shape = tuple(shape)
    n = int(numpy.prod(shape))
    elements = [ufloat(v if i % 2 == 0 else 2.5, s if i % 3 == 0 else 0.25)
                for i in range(n)]
    if how == 'result':
        elements = [e*1+0.0 if v == v and s == s else e for e in elements]
    a = obj(elements, shape)
    if how == 'matrix':
        a = a.view(unumpy.matrix)
    cols = shape[1] if len(shape) > 1 else 1
    text = io.StringIO()
    numpy.savetxt(text, a, fmt='%r', delimiter=';' if how == 'delimiter'
                  else ' ')
    text.seek(0)

    def convert(col):
        return ufloat_fromstr(col.decode('latin1') if isinstance(col, bytes)
                              else col)
    b = numpy.loadtxt(text, converters=dict.fromkeys(range(cols), convert),
                      dtype=object, ndmin=len(shape),
                      delimiter=';' if how == 'delimiter' else None)
    flat = list(b.flat)
    require(len(flat) == n, 'number of elements')
    for x, y in zip(elements, flat):
        require(same(x.nominal_value, y.nominal_value) and
                same(x.std_dev, y.std_dev), '%r read as %r', x, y)
    require(len({id(v) for y in flat for v in y.derivatives}) == n,
            'the numbers read are not independent')
    return 'text'


def check_pickle(case):
    """Arrays pickled (protocols, containers) keep their correlations."""
    _, protocol, kinds, container = case
    factory = Elements()
    values = VALUES[(2, 2)][0]
    elements = [factory.make(k, x, i)
                for i, (k, x) in enumerate(zip(kinds, values))]
    a = obj(elements, (2, 2))
    extra = [e for e in elements if isinstance(e, UFloat)]
    if container == 'array':
        data = a
    elif container == 'matrix':
        data = a.view(unumpy.matrix)
    elif container == 'masked':
        data = numpy.ma.array(a, mask=[[0, 1], [0, 0]])
    elif container == 'two arrays':
        data = (a, a[::-1]*2, {'x': extra})
    elif container == 'view':
        data = a.T[::-1]
    elif container == 'results':
        data = numpy.array([a.sum(), (a*a).mean(), a[0, 0]-a[1, 1]],
                           dtype=object)
    load = pickle.loads(pickle.dumps(data, protocol))
    one = list(data) if isinstance(data, tuple) else [data]
    two = list(load) if isinstance(load, tuple) else [load]
    flat1, flat2 = [], []
    for x, y in zip(one, two):
        require(type(x) is type(y), 'type %s', type(y))
        if isinstance(x, dict):
            flat1 += x['x']
            flat2 += y['x']
            continue
        require(x.shape == y.shape and y.dtype == object, 'shape %s', y.shape)
        if isinstance(x, numpy.ma.MaskedArray):
            require((x.mask == y.mask).all(), 'mask')
            x, y = x.data, y.data
        flat1 += list(x.flat)
        flat2 += list(y.flat)
    for x, y in zip(flat1, flat2):
        require(type(x) is type(y), 'type %s', type(y))
        if isinstance(x, UFloat):
            require(x.nominal_value == y.nominal_value and
                    x.std_dev == y.std_dev, '%r unpickled as %r', x, y)
            require(not set(map(id, x.derivatives)) &
                    set(map(id, y.derivatives)), 'shared variables')
        else:
            require(x == y, '%r unpickled as %r', x, y)
    u1 = [x for x in flat1 if isinstance(x, UFloat)]
    u2 = [x for x in flat2 if isinstance(x, UFloat)]
    if u1:
        c1, c2 = covariance_matrix(u1), covariance_matrix(u2)
        for i in range(len(u1)):
            for j in range(len(u1)):
                require(abs(c1[i][j]-c2[i][j]) <= 1e-12*max(1e-3, abs(
                    c1[i][j])), 'covariance [%d][%d]: %r instead of %r', i, j,
                    c2[i][j], c1[i][j])
    if container == 'matrix' and u1:
        require((load.nominal_values == data.nominal_values).all() and
                (load.std_devs == data.std_devs).all(), 'matrix attributes')
    return 'pickle'


def check_copy(case):
    """Copies of arrays contain the same numbers."""
    _, how, kinds = case
    factory = Elements()
    elements = [factory.make(k, x, i)
                for i, (k, x) in enumerate(zip(kinds, VALUES[(2, 2)][0]))]
    a = obj(elements, (2, 2))
    b = {'copy': lambda: a.copy(), 'array': lambda: numpy.array(a),
         'slice': lambda: a[:], 'copy.copy': lambda: copy.copy(a),
         'astype': lambda: a.astype(object), 'matrix':
         lambda: unumpy.matrix(a), 'list': lambda: numpy.array(a.tolist(),
                                                               dtype=object),
         'umatrix copy': lambda: a.view(unumpy.matrix).copy(),
         'ravel': lambda: a.ravel().reshape((2, 2)),
         'repeat': lambda: a.T.copy().T}[how]()
    for x, y in zip(a.flat, numpy.asarray(b).flat):
        require(x is y, 'the elements of the copy are other objects')
    total = (a-numpy.asarray(b)).sum()
    require(not isinstance(total, UFloat) or total.std_dev == 0,
            'copies are not correlated')
    return 'copy'


########################################

def patterns(n, tier):
    if n <= 3 or n == 4 and tier == 'thorough':
        for p in itertools.product(KINDS, repeat=n):
            yield ''.join(p)
        return
    if n > 4 and tier == 'thorough':
        for p in itertools.product('USCP' if n == 5 else 'USP', repeat=n):
            yield ''.join(p)
        return
    for p in itertools.product('USP', repeat=n):
        yield ''.join(p)
    for p in sorted({(KINDS*2)[i:i+n] for i in range(len(KINDS))} |
                    {k*n for k in 'CXIN'}):
        yield p


def operations(tier):
    for shape in VALUES:
        if tier == 'quick' and numpy.prod(shape) > 4:
            continue
        groups = ['any']
        if len(shape) == 1:
            groups.append('one')
        if len(shape) == 2:
            groups += ['two', 'matrix']
        for g in groups:
            for name in group_of(g):
                yield g, name, shape


def tasks(tier):
    out = [['operation', tier, g, name, list(shape)]
           for g, name, shape in operations(tier)]
    out += [['masked', tier, name] for name in MASKED]
    out += [['isnan', tier], ['text', tier], ['pickle', tier],
            ['copy', tier]]
    return out


def run_operation(task, ctx):
    _, tier, group, name, shape = task
    n = int(numpy.prod(shape))
    for index in range(len(VALUES[tuple(shape)])):
        for kinds in patterns(n, tier):
            for container in CONTAINERS if group != 'matrix' else ['matrix']:
                if container == 'masked':
                    continue
                if container != 'array' and group != 'matrix' and (
                        len(set(kinds)) > 2 and (tier == 'quick' or n > 3)):
                    continue
                if set(kinds) <= set('PIN') and name in (
                        'python sum', 'loop'):
                    continue
                if kinds[0] in 'PIN' and 'first' in name:
                    continue  # NumPy calculates with floats
                yield ['operation', group, name, shape, index, kinds,
                       container]


def run_masked(task, ctx):
    _, tier, name = task
    for index in range(3):
        for kinds in patterns(3, tier):
            for mask in itertools.product((0, 1), repeat=3):
                yield ['masked', name, index, kinds, list(mask)]


def run_isnan(task, ctx):
    kinds = 'USPnNMDfi'
    for n in (1, 2, 3) if task[1] == 'quick' else (1, 2, 3, 4):
        for p in itertools.product(kinds, repeat=n):
            for how in ('selection', 'mask'):
                yield ['isnan', ''.join(p), how]


def run_text(task, ctx):
    for v, s, shape, how in itertools.product(
            TEXT_VALUES, TEXT_DEVS, ([1], [3], [1, 2], [2, 3], [3, 1]),
            ('variable', 'result', 'matrix', 'delimiter')):
        if how == 'matrix' and len(shape) == 1:
            continue
        yield ['text', repr(v), repr(s), shape, how]


def run_pickle(task, ctx):
    for protocol, p, container in itertools.product(
            range(pickle.HIGHEST_PROTOCOL+1),
            itertools.product('USCXP' if task[1] == 'thorough' else 'USCP',
                              repeat=4),
            ('array', 'matrix', 'masked', 'two arrays', 'view', 'results')):
        if container == 'results' and set(p) == {'P'}:
            continue
        yield ['pickle', protocol, ''.join(p), container]


def run_copy(task, ctx):
    for how, p in itertools.product(
            ('copy', 'array', 'slice', 'copy.copy', 'astype', 'matrix',
             'list', 'umatrix copy', 'ravel', 'repeat'),
            itertools.product('USCX', repeat=4)):
        yield ['copy', how, ''.join(p)]


RUN = {'operation': run_operation, 'masked': run_masked, 'isnan': run_isnan,
       'text': run_text, 'pickle': run_pickle, 'copy': run_copy}
CHECK = {'operation': check_operation, 'masked': check_masked,
         'isnan': check_isnan, 'text': check_text, 'pickle': check_pickle,
         'copy': check_copy}


def run_task(task, ctx):
    warnings.simplefilter('ignore')
    numpy.seterr(all='ignore')
    case = None
    for case in RUN[task[0]](task, ctx):
        with ctx.case(case):
            ctx.outcome(CHECK[case[0]](case))
        ctx.state(json.dumps(case))
        ctx.traces += 1
        ctx.transitions += 1
        if ctx.full:
            return
    if case is not None:
        ctx.sample(case)


def replay(case, ctx):
    warnings.simplefilter('ignore')
    numpy.seterr(all='ignore')
    CHECK[case[0]](case)
