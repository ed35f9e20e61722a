"""C14: array functions and utilities match their scalar versions elementwise.

Every case builds real elements of given kinds, puts them in a container, and
compares the array operation with the scalar operations on the very same
elements (values, dependences, types), the shape, the dtype and the container
type, and the arguments after the call.
"""
import itertools
import json
import math
import operator
import warnings

import numpy

from uncertainties import ufloat, UFloat, umath, unumpy
from uncertainties import nominal_value, std_dev

from mc.num import same
from mc.run import require, Mismatch

ID = 'C14'
LEVEL = 'model_checking'
RULE = ('a state is a distinct (function, container, element kinds); a '
        'transition is one array operation; a trace is one array operation '
        'compared element by element with the scalar one')
ASSUMPTIONS = ['shapes and kinds outside the tables behave alike',
               'matrix arithmetic is compared on values for which floats are '
               'exact']

UNARY = {
    'arccos': 'acos', 'arccosh': 'acosh', 'arcsin': 'asin',
    'arcsinh': 'asinh', 'arctan': 'atan', 'arctanh': 'atanh', 'asinh': 'asinh',
    'ceil': None, 'cos': None, 'cosh': None, 'degrees': None, 'erf': None,
    'erfc': None, 'exp': None, 'expm1': None, 'fabs': None, 'floor': None,
    'gamma': None, 'isinf': None, 'isnan': None, 'lgamma': None, 'log': None,
    'log10': None, 'log1p': None, 'radians': None, 'sin': None, 'sinh': None,
    'sqrt': None, 'tan': None, 'tanh': None, 'trunc': None, 'modf': None}
BINARY = {'arctan2': 'atan2', 'copysign': None, 'fmod': None, 'hypot': None,
          'ldexp': None, 'log': None, 'pow': None}
PLAIN = {'isnan': bool, 'isinf': bool, 'ceil': int, 'floor': int, 'trunc': int}
NOT_EMPTY = ('ceil', 'floor', 'trunc')

KINDS = 'USCXPIN'
VALUES = [0.25, 0.5, 0.75, 0.375, 0.625, 0.125, 0.875, 0.4375]


class Elements(object):
    """Elements of all kinds; the shared variable is one per case."""

    def __init__(self, offset=0.0):
        self.shared = ufloat(0.5+offset, 0.125)
        self.other = ufloat(0.25+offset, 0.0625)
        self.offset = offset

    def make(self, kind, pos):
        v = VALUES[pos % len(VALUES)]+self.offset
        if kind == 'U':
            return ufloat(v, 0.25*(pos+1))
        if kind == 'S':
            return self.shared
        if kind == 'C':
            return self.shared*0.5+self.other*(pos+1)*0.125
        if kind == 'X':
            return ufloat(v, 0)
        if kind == 'P':
            return v
        if kind == 'I':
            return 1+int(self.offset)
        if kind == 'N':
            return numpy.float64(v)
        if kind == 'V':
            return ufloat(float('nan'), 1)
        if kind == 'W':
            return ufloat(-float('inf'), 0.5)
        if kind == 'Z':
            return float('nan')
        raise ValueError(kind)


def obj(elements, shape):
    a = numpy.empty(len(elements), dtype=object)
    for i, e in enumerate(elements):
        a[i] = e
    return a.reshape(shape)


# name: (number of elements, builder, shape, matrix type)
def nested(e, shape):
    if not shape:
        return e[0]
    n = len(e)//shape[0]
    return [nested(e[i*n:(i+1)*n], shape[1:]) for i in range(shape[0])]


CONTAINERS = {
    'scalar': ((), lambda e, s: e[0]),
    '0d': ((), obj),
    'list': ((3,), nested),
    'tuple': ((3,), lambda e, s: tuple(e)),
    'array': ((3,), obj),
    'nested': ((2, 2), nested),
    'array22': ((2, 2), obj),
    'fortran': ((2, 2), lambda e, s: numpy.asfortranarray(obj(e, s))),
    'transposed': ((2, 2), lambda e, s: obj(
        [e[0], e[2], e[1], e[3]], s).T),
    'strided': ((3,), lambda e, s: obj(
        [x for y in e for x in (y, None)], (6,))[::2]),
    'reversed': ((3,), lambda e, s: obj(e[::-1], s)[::-1]),
    'row': ((1, 3), obj),
    'column': ((3, 1), obj),
    'cube': ((2, 1, 2), obj),
    'listofarrays': ((2, 2), lambda e, s: list(obj(e, s))),
    'matrix': ((2, 2), lambda e, s: obj(e, s).view(numpy.matrix)),
    'umatrix': ((2, 2), lambda e, s: obj(e, s).view(unumpy.matrix)),
    'umatrixrow': ((1, 3), lambda e, s: unumpy.matrix(e)),
    'umatrixcolumn': ((3, 1), lambda e, s: unumpy.matrix([[x] for x in e])),
    'matrixcolumn': ((3, 1), lambda e, s: obj(e, s).view(numpy.matrix)),
    'umatrixone': ((1, 1), lambda e, s: unumpy.matrix(e)),
    'umatrixT': ((2, 2), lambda e, s: obj(
        [e[0], e[2], e[1], e[3]], s).view(unumpy.matrix).T),
    'one': ((1,), obj),
    'one11': ((1, 1), obj),
}
# Larger arrays
LARGE = {
    'large array': ((70,), obj),
    'large list': ((33,), nested),
    'large 2d': ((6, 7), obj),
    'large nested': ((5, 9), nested),
    'large 3d': ((3, 4, 5), obj),
    'large strided': ((40,), lambda e, s: obj(
        [x for y in e for x in (y, None)], (80,))[::2]),
    'large fortran': ((5, 6), lambda e, s: numpy.asfortranarray(obj(e, s))),
    'large umatrix': ((6, 6), lambda e, s: obj(e, s).view(unumpy.matrix)),
    'large matrix': ((3, 11), lambda e, s: obj(e, s).view(numpy.matrix)),
    'large column': ((40, 1), obj),
    'large row': ((1, 17), obj),
}
MATRICES = {'large umatrix': unumpy.matrix, 'large matrix': numpy.matrix,
            'matrix': numpy.matrix, 'umatrix': unumpy.matrix,
            'umatrixrow': unumpy.matrix, 'umatrixcolumn': unumpy.matrix,
            'matrixcolumn': numpy.matrix, 'umatrixone': unumpy.matrix,
            'umatrixT': unumpy.matrix}


def size(shape):
    n = 1
    for k in shape:
        n *= k
    return n


def build(container, kinds, factory):
    shape, make = CONTAINERS.get(container) or LARGE[container]
    elements = [factory.make(k, i) for i, k in enumerate(kinds)]
    return elements, make(elements, shape), shape


def snapshot(elements):
    return [(id(e), e.nominal_value, dict(e.derivatives), e.std_dev)
            if isinstance(e, UFloat) else repr(e) for e in elements]


def outcome(f, *args):
    try:
        return f(*args), None
    except Exception as exc:
        return None, exc


def same_number(got, expected, what):
    if isinstance(expected, tuple):
        require(isinstance(got, tuple) and len(got) == len(expected),
                '%s: %r instead of %r', what, got, expected)
        for g, e in zip(got, expected):
            same_number(g, e, what)
        return
    if isinstance(expected, UFloat):
        require(isinstance(got, UFloat), '%s: %r instead of %r', what, got,
                expected)
        require(same(got.nominal_value, expected.nominal_value),
                '%s: nominal value %r instead of %r', what, got.nominal_value,
                expected.nominal_value)
        dg, de = got.derivatives, expected.derivatives
        require(set(dg) == set(de) and all(
            same(float(dg[v]), float(de[v])) for v in de),
            '%s: derivatives %r instead of %r', what, dict(dg), dict(de))
        require(same(float(got.std_dev), float(expected.std_dev)),
                '%s: deviation', what)
        return
    require(not isinstance(got, UFloat), '%s: %r instead of %r', what, got,
            expected)
    require(got == expected or (got != got and expected != expected),
            '%s: %r instead of %r', what, got, expected)
    if isinstance(expected, float):
        require(isinstance(got, float), '%s: type %s', what, type(got))


def check_array(result, expected, shape, what, mtype=None, dtype=None):
    require(isinstance(result, numpy.ndarray), '%s: %s instead of an array',
            what, type(result))
    require(result.shape == shape, '%s: shape %s instead of %s', what,
            result.shape, shape)
    if mtype is not None:
        require(isinstance(result, mtype), '%s: %s instead of a matrix', what,
                type(result))
    else:
        require(not isinstance(result, numpy.matrix), '%s: matrix', what)
    if dtype is not None:
        require(result.dtype.kind == {bool: 'b', int: 'i', float: 'f',
                                      object: 'O'}[dtype],
                '%s: dtype %s', what, result.dtype)
        if dtype in (int, float):
            require(result.dtype == numpy.dtype(dtype), '%s: dtype %s', what,
                    result.dtype)
    for g, e in zip(result.flat, expected):
        same_number(g, e, what)


def kind_patterns(n, tier, kinds=KINDS, full=3):
    if n <= full:
        for p in itertools.product(kinds, repeat=n):
            yield ''.join(p)
        return
    seen = set()
    # Every pair of kinds in every two positions
    for a, b in itertools.product(kinds, repeat=2):
        for i, j in itertools.permutations(range(n), 2):
            for base in ('P', 'U') if tier == 'thorough' else ('P',):
                p = [base]*n
                p[i], p[j] = a, b
                p = ''.join(p)
                if p not in seen:
                    seen.add(p)
                    yield p


########################################
# Functions of one argument

def check_unary(case):
    _, name, container, kinds = case
    scalar = getattr(umath, UNARY[name] or name)
    f = getattr(unumpy, name)
    elements, arg, shape = build(container, kinds, Elements(
        1.0 if name == 'arccosh' else 0.0))
    before = snapshot(elements)
    expected = [outcome(scalar, e) for e in elements]
    result, exc = outcome(f, arg)
    errors = [x[1] for x in expected if x[1] is not None]
    require(snapshot(elements) == before, '%s() modified its argument', name)
    if errors:
        require(type(exc) is type(errors[0]), '%s(): %r instead of %r', name,
                exc, errors[0])
        return 'exception'
    if exc is not None:
        raise exc
    check_array(result, [x[0] for x in expected], shape, name+'()',
                MATRICES.get(container), PLAIN.get(name, object))
    return 'one argument'


def run_unary(task, ctx):
    _, tier, name = task
    kinds = KINDS
    for container, (shape, _) in CONTAINERS.items():
        if name == 'modf' and not shape:
            continue  # (what an "array of pairs" is, then, is unspecified)
        n = size(shape)
        full = 3 if tier == 'thorough' or container in (
            'array', 'list', 'umatrixrow') else 1
        if n == 3 and full == 1:
            patterns = kind_patterns(3, tier, full=2)
        else:
            patterns = kind_patterns(n, tier, full=full if n <= 3 else 3)
        for p in patterns:
            yield ['unary', name, container, p]
    if name in ('isnan', 'isinf', 'fabs', 'exp', 'sqrt'):
        for container in ('array', 'list', 'umatrixrow'):
            for p in itertools.product('UPVWZ', repeat=3):
                yield ['unary', name, container, ''.join(p)]


########################################
# Functions of two arguments

PAIRS = [('array', 'array', (3,)), ('array', 'scalar', (3,)),
         ('scalar', 'array', (3,)), ('list', 'array', (3,)),
         ('tuple', 'list', (3,)), ('column', 'row', (3, 3)),
         ('row', 'column', (3, 3)), ('array', 'column', (3, 3)),
         ('array22', 'nested', (2, 2)), ('0d', 'array22', (2, 2)),
         ('cube', 'array22', (2, 2, 2)), ('scalar', 'scalar', ()),
         ('strided', 'reversed', (3,)), ('transposed', 'fortran', (2, 2)),
         ('one', 'array', (3,)), ('scalar', '0d', ())]
MATRIX_PAIRS = [('umatrix', 'umatrix', (2, 2)), ('umatrix', 'scalar', (2, 2)),
                ('scalar', 'umatrix', (2, 2)), ('umatrix', 'array22', (2, 2)),
                ('array22', 'umatrix', (2, 2)), ('nested', 'umatrix', (2, 2)),
                ('umatrix', 'matrix', (2, 2)), ('matrix', 'umatrix', (2, 2)),
                ('umatrixrow', 'column', (3, 3))]


def broadcast(elements, shape, target):
    return list(numpy.broadcast_to(obj(elements, shape), target).flat)


def check_binary(case):
    _, name, c1, c2, k1, k2, target = case
    target = tuple(target)
    scalar = getattr(umath, BINARY[name] or name)
    f = getattr(unumpy, name)
    factory = Elements(1.0)
    e1, a1, s1 = build(c1, k1, factory)
    e2, a2, s2 = build(c2, k2, factory)
    if name == 'ldexp':
        e2 = [i % 3-1 for i in range(len(e2))]
        a2 = (CONTAINERS.get(c2) or LARGE[c2])[1](e2, s2)
    before = snapshot(e1), snapshot(e2)
    expected = [outcome(scalar, x, y) for x, y in zip(
        broadcast(e1, s1, target), broadcast(e2, s2, target))]
    result, exc = outcome(f, a1, a2)
    require((snapshot(e1), snapshot(e2)) == before,
            '%s() modified its arguments', name)
    errors = [x[1] for x in expected if x[1] is not None]
    if errors:
        require(type(exc) is type(errors[0]), '%s(): %r instead of %r', name,
                exc, errors[0])
        return 'exception'
    if exc is not None:
        raise exc
    mtype = unumpy.matrix if 'umatrix' in c1+c2 else (
        numpy.matrix if 'matrix' in c1+c2 else None)
    if mtype and 'umatrix' in c1+c2 and not c1.startswith('umatrix'):
        mtype = numpy.matrix
    check_array(result, [x[0] for x in expected], target, name+'()', mtype,
                object)
    return 'two arguments'


def run_binary(task, ctx):
    _, tier, name = task
    for c1, c2, target in PAIRS+MATRIX_PAIRS:
        n1, n2 = (size(CONTAINERS[c][0]) for c in (c1, c2))
        seen = set()
        base2 = ['P'*n2, 'U'*n2, 'S'*n2, ('UPC'*n2)[:n2], ('NSI'*n2)[:n2]]
        base1 = ['P'*n1, 'U'*n1, 'S'*n1, ('CUP'*n1)[:n1], ('SIN'*n1)[:n1]]
        for k1 in base1+list(kind_patterns(n1, tier, full=2)):
            for k2 in base2 if name != 'ldexp' else base2[:1]:
                seen.add((k1, k2))
        for k2 in kind_patterns(n2, tier, full=2):
            for k1 in base1 if name != 'ldexp' else []:
                seen.add((k1, k2))
        for k1, k2 in sorted(seen):
            yield ['binary', name, c1, c2, k1, k2, list(target)]


########################################
# Arithmetic and comparisons of arrays

OPS = {'+': operator.add, '-': operator.sub, '*': operator.mul,
       '/': operator.truediv, '**': operator.pow, '//': operator.floordiv,
       '%': operator.mod, '<': operator.lt, '<=': operator.le,
       '>': operator.gt, '>=': operator.ge, '==': operator.eq,
       '!=': operator.ne}
COMPARISONS = ('<', '<=', '>', '>=', '==', '!=')
ARITH_PAIRS = [(a, b, t) for a, b, t in PAIRS if not (
    a in ('scalar', 'list', 'tuple', 'nested') and
    b in ('scalar', 'list', 'tuple', 'nested'))]


def is_plain(kinds):
    return not set(kinds) & set('USCXVW')


def check_arith(case):
    _, op, c1, c2, k1, k2, target = case
    target = tuple(target)
    f = OPS[op]
    factory = Elements(1.0)
    e1, a1, s1 = build(c1, k1, factory)
    e2, a2, s2 = build(c2, k2, factory)
    before = snapshot(e1), snapshot(e2)
    expected = [f(x, y) for x, y in zip(broadcast(e1, s1, target),
                                        broadcast(e2, s2, target))]
    result = f(a1, a2)
    require((snapshot(e1), snapshot(e2)) == before,
            '%s modified its arguments', op)
    if target == () and not isinstance(result, numpy.ndarray):
        same_number(result, expected[0], op)
        return 'arithmetic (scalar)'
    mtype = numpy.matrix if 'matrix' in c1+c2 else None
    check_array(result, expected, target, op, mtype,
                bool if op in COMPARISONS else None)
    return 'comparison' if op in COMPARISONS else 'arithmetic'


def run_arith(task, ctx):
    _, tier, op = task
    pairs = list(ARITH_PAIRS)
    if op in ('+', '-', '/', '<', '==', '!='):
        pairs += [p for p in MATRIX_PAIRS if p[0] != 'nested']
    for c1, c2, target in pairs:
        n1, n2 = (size(CONTAINERS[c][0]) for c in (c1, c2))
        seen = set()
        base = ['P', 'U', 'S', 'C', 'UPC', 'NSI', 'XUS']
        for k1 in kind_patterns(n1, tier, full=2):
            for b in base:
                seen.add((k1, (b*n2)[:n2]))
        for k2 in kind_patterns(n2, tier, full=2):
            for b in base:
                seen.add(((b*n1)[:n1], k2))
        for k1, k2 in sorted(seen):
            if is_plain(k1) and is_plain(k2):
                continue
            yield ['arith', op, c1, c2, k1, k2, list(target)]


def check_inplace(case):
    _, op, c1, k1, k2 = case
    factory = Elements(1.0)
    e1, a1, s1 = build(c1, k1, factory)
    y = factory.make(k2, 5)
    before = snapshot(e1), snapshot([y])
    expected = [OPS[op](x, y) for x in e1]
    a = a1
    if op == '+':
        a += y
    elif op == '-':
        a -= y
    elif op == '*':
        a *= y
    elif op == '/':
        a /= y
    elif op == '**':
        a **= y
    require(a is a1, 'in-place operation')
    require((snapshot(e1), snapshot([y])) == before, 'in-place %s modified '
            'the numbers', op)
    check_array(a, expected, s1, 'in-place '+op, MATRICES.get(c1))
    return 'in place'


def check_neg(case):
    _, op, c1, k1 = case
    f = {'neg': operator.neg, 'pos': operator.pos, 'abs': abs}[op]
    e1, a1, s1 = build(c1, k1, Elements(-0.3))
    before = snapshot(e1)
    expected = [f(x) for x in e1]
    result = f(a1)
    require(snapshot(e1) == before, '%s modified its argument', op)
    check_array(result, expected, s1, op, MATRICES.get(c1))
    return 'unary operators'


def run_inplace(task, ctx):
    for c in ('array', 'array22', 'cube', 'umatrix', 'strided'):
        n = size(CONTAINERS[c][0])
        for op in '+-*/':
            for k1 in kind_patterns(n, 'quick', full=2):
                for k2 in 'USCP':
                    yield ['inplace', op, c, k1, k2]
        for op in ('neg', 'pos', 'abs'):
            for k1 in kind_patterns(n, 'quick', full=2):
                yield ['neg', op, c, k1]


########################################
# Matrix products (float arithmetic is exact on these values)

MATMUL = [((2, 2), (2, 2)), ((1, 3), (3, 1)), ((3, 1), (1, 3)),
          ((2, 3), (3, 2)), ((1, 1), (1, 4)), ((2, 2), (2, 1))]
MTYPES = {'u': unumpy.matrix, 'm': numpy.matrix, 'a': None}


def check_matmul(case):
    _, s1, s2, t1, t2, k1, k2, how = case
    s1, s2 = tuple(s1), tuple(s2)
    factory = Elements(1.0)
    e1 = [factory.make(k, i) for i, k in enumerate(k1)]
    e2 = [factory.make(k, i+4) for i, k in enumerate(k2)]
    a1, a2 = obj(e1, s1), obj(e2, s2)
    if MTYPES[t1]:
        a1 = a1.view(MTYPES[t1])
    if MTYPES[t2]:
        a2 = a2.view(MTYPES[t2])
    result = {'*': operator.mul, '@': operator.matmul,
              'dot': lambda a, b: a.dot(b)}[how](a1, a2)
    before = snapshot(e1), snapshot(e2)
    expected = []
    for i in range(s1[0]):
        for j in range(s2[1]):
            total = 0.0
            for k in range(s1[1]):
                total = total+e1[i*s1[1]+k]*e2[k*s2[1]+j]
            expected.append(total)
    require(isinstance(result, numpy.matrix) or t1+t2 == 'aa',
            'product of matrices: %s', type(result))
    if t1 == t2 == 'u':
        require(isinstance(result, unumpy.matrix), 'product: %s',
                type(result))
    require(result.shape == (s1[0], s2[1]), 'shape')
    for g, e in zip(result.flat, expected):
        same_number(as_number(g), as_number(e), 'matrix product')
    require((snapshot(e1), snapshot(e2)) == before, 'modified arguments')
    return 'matrix product'


def as_number(x):
    return x if isinstance(x, UFloat) else float(x)


def check_scalar_matrix(case):
    _, how, k, kinds = case
    factory = Elements(1.0)
    elements = [factory.make(q, i) for i, q in enumerate(kinds)]
    m = unumpy.matrix(obj(elements, (2, 2)))
    y = {'int': 3, 'npfloat': numpy.float64(1.5), 'npint': numpy.int64(2)
         }.get(k) or factory.make(k, 6)
    if how == 'left':
        result, expected = y*m, [y*e for e in elements]
    elif how == 'right':
        result, expected = m*y, [e*y for e in elements]
    elif how == 'inplace':
        result, expected = m.copy(), [e*y for e in elements]
        result *= y
    elif how == 'div':
        result, expected = m/y, [e/y for e in elements]
    elif how == 'rdiv':
        result, expected = y/m, [y/e for e in elements]
    require(isinstance(result, unumpy.matrix), 'scalar times matrix: %s',
            type(result))
    check_array(result, expected, (2, 2), 'scalar and matrix', unumpy.matrix)
    return 'scalar and matrix'


def run_matmul(task, ctx):
    _, tier = task
    for (s1, s2), t1, t2 in itertools.product(MATMUL, 'uma', 'uma'):
        n1, n2 = size(s1), size(s2)
        patterns = [(a, b) for a in ('U', 'S', 'C', 'P', 'UPS', 'XIC', 'NUC')
                    for b in ('U', 'S', 'C', 'P', 'USP', 'CIX')]
        for k1, k2 in patterns:
            if is_plain(k1+k2) or t1+t2 == 'aa':
                continue
            for how in '*', '@', 'dot':
                yield ['matmul', list(s1), list(s2), t1, t2, (k1*n1)[:n1],
                       (k2*n2)[:n2], how]
    for k, how in itertools.product(
            ['U', 'S', 'C', 'X', 'P', 'int', 'npfloat', 'npint'],
            ['left', 'right', 'inplace', 'div', 'rdiv']):
        for p in kind_patterns(4, tier):
            yield ['scalar_matrix', how, k, p]


########################################
# Reductions and rearrangements with NumPy functions

REDUCTIONS = {
    'sum': (lambda a: a.sum(), lambda e: sum(e[1:], e[0])),
    'numpy.sum': (numpy.sum, lambda e: sum(e[1:], e[0])),
    'prod': (lambda a: a.prod(), lambda e: e[0]*e[1]*e[2]),
    'mean': (lambda a: a.mean(), lambda e: (e[0]+e[1]+e[2])/3),
    'dot': (lambda a: a.dot(a), lambda e: e[0]*e[0]+e[1]*e[1]+e[2]*e[2]),
    'cumsum': (lambda a: a.cumsum()[-1], lambda e: e[0]+e[1]+e[2]),
    'diff': (lambda a: numpy.diff(a)[1], lambda e: e[2]-e[1]),
}


def check_order(elements, a, name):
    if name == 'sort':
        got = list(numpy.sort(a))
        require([nominal_value(x) for x in got] == sorted(
            nominal_value(x) for x in elements), 'sort: %r', got)
        require(sorted(map(id, got)) == sorted(map(id, elements)),
                'sort: the elements are not the same')
        return
    got = getattr(a, name)()
    values = [nominal_value(x) for x in elements]
    require(any(got is x for x in elements) and nominal_value(got) ==
            {'min': min, 'max': max}[name](values), '%s: %r', name, got)


def check_reduction(case):
    _, name, kinds = case
    if name in ('sort', 'max', 'min'):
        elements, a, _ = build('array', kinds, Elements(1.0))
        check_order(elements, a, name)
        return 'reduction'
    elements, a, _ = build('array', kinds, Elements(1.0))
    f, ref = REDUCTIONS[name]
    got, expected = f(a), ref(elements)
    if not isinstance(expected, UFloat) and not isinstance(got, UFloat):
        require(abs(float(got)-float(expected)) < 1e-12, 'reduction')
        return 'reduction'
    require(isinstance(got, UFloat) and isinstance(expected, UFloat),
            '%s: %r instead of %r', name, got, expected)
    require(abs(got.nominal_value-expected.nominal_value) < 1e-12,
            '%s: nominal value %r instead of %r', name, got, expected)
    dg, de = got.derivatives, expected.derivatives
    require(set(dg) == set(de) and all(abs(dg[v]-de[v]) < 1e-12 for v in de),
            '%s: derivatives', name)
    return 'reduction'


########################################
# Creation

NUMS = {'floats': [0.25, -1.5, 3.0, 0.1], 'ints': [1, -2, 0, 5],
        'bools': [True, False, True, True],
        'special': [float('nan'), float('inf'), -0.0, -float('inf')],
        'extreme': [1e308, -5e-324, 1e-308, 2.0**53+2],
        'mixed': [1, 2.5, numpy.float32(0.1), True]}
STDS = {'floats': [0.1, 0.25, 3.0, 1e-5], 'ints': [1, 2, 0, 5],
        'zeros': [0.0, 0, 0, 0.0],
        'special': [float('nan'), float('inf'), 0.0, 5e-324],
        'mixed': [1, 0.5, numpy.float32(0.1), True]}
FORMS = {
    'list': ((4,), lambda v: list(v)),
    'tuple': ((4,), lambda v: tuple(v)),
    'nested': ((2, 2), lambda v: nested(list(v), (2, 2))),
    'tuples': ((2, 2), lambda v: ((v[0], v[1]), (v[2], v[3]))),
    'array': ((4,), lambda v: numpy.array(v)),
    'array22': ((2, 2), lambda v: numpy.array(v).reshape(2, 2)),
    'object': ((2, 2), lambda v: obj(list(v), (2, 2))),
    'transposed': ((2, 2), lambda v: numpy.array(
        [v[0], v[2], v[1], v[3]]).reshape(2, 2).T),
    'cube': ((1, 2, 2), lambda v: numpy.array(v).reshape(1, 2, 2)),
    'matrix': ((2, 2), lambda v: numpy.matrix(numpy.array(v).reshape(2, 2))),
    'scalar': ((), lambda v: v[0]),
    'strided': ((2,), lambda v: numpy.array(v)[::2]),
    'float32': ((4,), lambda v: numpy.array(v, dtype=numpy.float32)),
    'one': ((1, 1), lambda v: [[v[0]]]),
    'column': ((4, 1), lambda v: [[x] for x in v]),
    'column array': ((4, 1), lambda v: numpy.array(v)[:, None]),
    'matrix column': ((4, 1), lambda v: numpy.matrix(v).T),
    'row': ((1, 4), lambda v: [list(v)]),
    'matrix row': ((1, 4), lambda v: numpy.matrix(v)),
    'deep': ((2, 1, 2), lambda v: nested(list(v), (2, 1, 2))),
}


def flat(form, values):
    if form in ('scalar', 'one'):
        return values[:1]
    if form == 'strided':
        return values[::2]
    if form == 'float32':
        return [float(numpy.float32(x)) for x in values]
    return values


def check_creation(case):
    _, how, form, form2, v, s = case
    vs, ss = NUMS[v], STDS[s]
    shape, make = FORMS[form]
    make2 = FORMS[form2][1]
    with numpy.errstate(all='ignore'):
        a, b = make(vs), make2(ss)
        fv, fs = flat(form, vs), flat(form2, ss)
    keep = repr(a), repr(b)
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        if how == 'uarray':
            x = unumpy.uarray(a, b)
        elif how == 'names':
            x = unumpy.uarray(nominal_values=a, std_devs=b)
        elif how == 'umatrix':
            x = unumpy.umatrix(a, b)
        elif how == 'legacy':
            x = unumpy.uarray((a, b))
        elif how == 'legacy matrix':
            x = unumpy.umatrix((a, b))
    obsolete = [q for q in w if 'Obsolete' in str(q.message)]
    require(bool(obsolete) == how.startswith('legacy'), 'warnings: %r', [
        str(q.message) for q in w])
    require((repr(a), repr(b)) == keep, 'the arguments are modified')
    require(isinstance(x, numpy.ndarray) and x.dtype == object, 'array')
    if 'matrix' in how:
        require(isinstance(x, unumpy.matrix), 'matrix type %s', type(x))
        shape = shape if len(shape) == 2 else (1,)*(2-len(shape))+shape
    require(x.shape == shape, 'shape %s instead of %s', x.shape, shape)
    seen = set()
    for e, value, std in zip(x.flat, fv, fs):
        require(isinstance(e, UFloat) and set(e.derivatives) == {e},
                'not a variable')
        require(same(e.nominal_value, float(value)), 'nominal value %r '
                'instead of %r', e.nominal_value, value)
        require(same(float(e.std_dev), float(std)), 'deviation %r instead of '
                '%r', e.std_dev, std)
        require(e.tag is None, 'tag')
        require(id(e) not in seen, 'repeated variable')
        seen.add(id(e))
    same_float(unumpy.nominal_values(x), x, fv, shape, 'matrix' in how
               or form.startswith('matrix'))
    same_float(unumpy.std_devs(x), x, fs, shape, 'matrix' in how
               or form.startswith('matrix'))
    if 'matrix' in how:
        same_float(x.nominal_values, x, fv, shape, True)
        same_float(x.std_devs, x, fs, shape, True)
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter('always')
            same_float(x.std_devs(), x, fs, shape, True)
        require(any('std_devs' in str(q.message) for q in w),
                'no warning for std_devs()')
    return 'creation'


def same_float(r, x, values, shape, matrix):
    require(isinstance(r, numpy.ndarray) and r.dtype == float, 'float array')
    require(r.shape == shape, 'shape %s', r.shape)
    require(isinstance(r, numpy.matrix) == matrix, 'type %s', type(r))
    require(not isinstance(r, unumpy.matrix), 'matrix with uncertainties')
    for g, v in zip(r.flat, values):
        require(same(float(g), float(v)), '%r instead of %r', g, v)


def run_creation(task, ctx):
    for how, form, v, s in itertools.product(
            ['uarray', 'names', 'umatrix', 'legacy', 'legacy matrix'], FORMS,
            NUMS, STDS):
        if 'matrix' in how and form in ('cube', 'deep'):
            continue
        forms = {form}
        shape = FORMS[form][0]
        forms |= {g for g in FORMS if FORMS[g][0] == shape and g != 'float32'
                  and not g.startswith('matrix')}
        for form2 in sorted(forms):
            yield ['creation', how, form, form2, v, s]


def check_creation_refused(case):
    _, how, v, s = case
    f = getattr(unumpy, how)
    try:
        f(v, s)
    except Exception:
        return 'refused'
    raise Mismatch('%s(%r, %r) is accepted' % (how, v, s))


REFUSED = [([1, 2], [0.1, -0.1]), ([1, 2], [0.1, -float('inf')]),
           ([1, 2], [-1e-300, 1]), ([1, 2], [0.1, 0.2, 0.3]),
           ([[1, 2]], [[0.1, -2]]), (['a', 2], [0.1, 0.1]),
           ([1, 2j], [1, 1]), ([None, 1], [1, 1]), ([1, 2], ['x', 1]),
           ([[1, 2, 3]], [[1, 2]])]


########################################
# Extraction

def check_extraction(case):
    _, container, kinds = case
    elements, arg, shape = build(container, kinds, Elements(1.0))
    before = snapshot(elements)
    m = container in MATRICES
    same_float(unumpy.nominal_values(arg), arg,
               [nominal_value(e) for e in elements], shape, m)
    same_float(unumpy.std_devs(arg), arg,
               [std_dev(e) for e in elements], shape, m)
    for e in elements:
        if not isinstance(e, UFloat):
            require(std_dev(e) == 0, 'deviation of a plain number')
    require(snapshot(elements) == before, 'modified argument')
    # The results are new arrays, and live deviations are used
    for e in elements:
        if isinstance(e, UFloat) and any(v is e for v in e.derivatives):
            e.std_dev = 7.5
    same_float(unumpy.std_devs(arg), arg, [std_dev(e) for e in elements],
               shape, m)
    return 'extraction'


def run_extraction(task, ctx):
    _, tier = task
    for container, (shape, _) in CONTAINERS.items():
        n = size(shape)
        for p in kind_patterns(n, tier, KINDS+'VWZ', full=3):
            yield ['extraction', container, p]


PLAIN_ARRAYS = {
    'int': numpy.array([[1, 2], [3, 4]]),
    'bool': numpy.array([True, False]),
    'float': numpy.array([0.5, -1.5, float('nan')]),
    'float32': numpy.array([0.5, -1.5], dtype=numpy.float32),
    'empty': numpy.array([]), 'empty2': numpy.zeros((2, 0)),
    'emptyobj': numpy.zeros((0, 3), dtype=object),
    'list': [1, 2.5], 'emptylist': [], 'scalar': 3, 'npscalar':
    numpy.float64(2.5), '0d': numpy.array(1.5),
    'matrix': numpy.matrix([[1., 2.], [3., 4.]]),
    'umatrix': unumpy.matrix([[1., 2.], [3., 4.]]),
    'umatrixint': unumpy.matrix([[1, 2], [3, 4]]),
}


def check_plain(case):
    _, key, f = case
    a = PLAIN_ARRAYS[key]
    ref = numpy.array(a, dtype=float)
    m = isinstance(a, numpy.matrix)
    if f == 'extract':
        same_float(unumpy.nominal_values(a), a, list(ref.flat), ref.shape, m)
        same_float(unumpy.std_devs(a), a, [0.0]*ref.size, ref.shape, m)
        return 'plain'
    scalar = getattr(umath, UNARY[f] or f)
    expected = [outcome(scalar, float(x)) for x in ref.flat]
    result, exc = outcome(getattr(unumpy, f), a)
    errors = [x[1] for x in expected if x[1] is not None]
    if errors:
        require(type(exc) is type(errors[0]), '%s(): %r instead of %r', f, exc,
                errors[0])
        return 'exception'
    if exc is not None:
        raise exc
    check_array(result, [x[0] for x in expected], ref.shape, f+'()',
                numpy.matrix if m else None, PLAIN.get(f, object))
    return 'plain'


BIG = [[1.5, 1e300], [1e300, 1.5], [1e300], [1e300, 1e301], [2.0**62, 0.5],
       [2.0**80], [-2.0**63, 0.5]]


def check_big(case):
    _, f, values = case
    result = getattr(unumpy, f)(values)
    require(result.shape == (len(values),), 'shape')
    for g, v in zip(result.flat, values):
        require(int(g) == int(getattr(umath, f)(v)), '%s(%r) is %r', f, v, g)
    return 'plain'


def run_misc(task, ctx):
    for name in sorted(set(UNARY) | set(BINARY)):
        yield ['name', name]
    for how in 'uarray', 'umatrix':
        for v, s in REFUSED:
            try:
                json.dumps([v, s])
            except TypeError:
                continue
            yield ['creation_refused', how, v, s]
    for key in PLAIN_ARRAYS:
        yield ['plain', key, 'extract']
        for f in sorted(UNARY):
            if f == 'modf':
                continue
            yield ['plain', key, f]
    for name in sorted(REDUCTIONS)+['sort', 'max', 'min']:
        for kinds in itertools.product(KINDS, repeat=3):
            yield ['reduction', name, ''.join(kinds)]
    for f in NOT_EMPTY:
        for values in BIG:
            yield ['big', f, values]


LARGE_PAIRS = [('large array', 'scalar', (70,)), ('scalar', 'large 2d', (6, 7)),
               ('large 2d', 'large 2d', (6, 7)), ('large array', 'one', (70,)),
               ('large column', 'large row', (40, 17)),
               ('large strided', 'large strided', (40,)),
               ('large umatrix', 'large umatrix', (6, 6)),
               ('large list', 'large list', (33,)),
               ('large 3d', '0d', (3, 4, 5))]
LARGE_WORDS = ['U', 'US', 'P', 'PPPPPPPPPPU', 'XUSPIN', 'IU', 'UUUUUUUP']
LARGE_FORMS = {
    'list': lambda v, s: obj(v, s).tolist(),
    'array': lambda v, s: numpy.array(v).reshape(s),
    'fortran': lambda v, s: numpy.asfortranarray(
        numpy.array(v).reshape(s)),
    'strided': lambda v, s: numpy.repeat(v, 2)[::2].reshape(s),
    'object': obj}


def check_large_creation(case):
    _, how, form, form2, shape = case
    shape = tuple(shape)
    n = size(shape)
    vs = [0.5*i-3 for i in range(n)]
    ss = [0.25*(i % 7) for i in range(n)]
    f = getattr(unumpy, how)
    a, b = LARGE_FORMS[form](vs, shape), LARGE_FORMS[form2](ss, shape)
    keep = repr(a), repr(b)
    x = f(a, b)
    require((repr(a), repr(b)) == keep, 'the arguments are modified')
    m = how == 'umatrix'
    if m:
        shape = (1,)*(2-len(shape))+shape
        require(isinstance(x, unumpy.matrix), 'matrix type %s', type(x))
    require(x.shape == shape and x.dtype == object, 'shape %s', x.shape)
    for e, v, d in zip(x.flat, vs, ss):
        require(isinstance(e, UFloat) and set(e.derivatives) == {e} and
                e.nominal_value == v and e.std_dev == d, '%r instead of '
                '%r+/-%r', e, v, d)
    require(len(set(map(id, x.flat))) == n, 'repeated variables')
    same_float(unumpy.nominal_values(x), x, vs, shape, m)
    same_float(unumpy.std_devs(x), x, ss, shape, m)
    return 'large creation'


def run_large(task, ctx):
    for name in sorted(UNARY):
        for container, (shape, _) in LARGE.items():
            for word in LARGE_WORDS+(
                    ['UZ', 'VWU', 'PPPPPPZ'] if name in ('isnan', 'isinf')
                    else []):
                yield ['unary', name, container,
                       (word*size(shape))[:size(shape)]]
    for name in sorted(BINARY):
        for c1, c2, target in LARGE_PAIRS:
            n1, n2 = (size((CONTAINERS.get(c) or LARGE[c])[0])
                      for c in (c1, c2))
            for w1, w2 in itertools.product(LARGE_WORDS, LARGE_WORDS):
                if name == 'ldexp' and w2 != 'P':
                    continue
                yield ['binary', name, c1, c2, (w1*n1)[:n1], (w2*n2)[:n2],
                       list(target)]
    for container, (shape, _) in LARGE.items():
        for word in LARGE_WORDS+['C', 'VWZ', 'CPX']:
            yield ['extraction', container, (word*size(shape))[:size(shape)]]
    for how, form, form2, shape in itertools.product(
            ('uarray', 'umatrix'), LARGE_FORMS, LARGE_FORMS,
            ([70], [6, 7], [3, 4, 5], [1, 33], [40, 1])):
        if how == 'uarray' or len(shape) < 3:
            yield ['large creation', how, form, form2, shape]


def check_name(case):
    name = case[1]
    require(callable(getattr(unumpy, name, None)), '%s is not available', name)
    require(name in unumpy.__all__, '%s is not exported', name)
    if name in ('erf', 'erfc', 'gamma', 'lgamma', 'pow', 'asinh'):
        return 'name'
    require(hasattr(numpy, name), '%s is not a NumPy name', name)
    if name == 'hypot':
        args = (3.0, 4.0)
    elif name in ('ldexp',):
        args = (0.75, 3)
    elif name in BINARY and name != 'log':
        args = (0.75, 0.5)
    else:
        args = (1.25,) if name == 'arccosh' else (0.75,)
    if name == 'modf':
        return 'name'
    got = getattr(unumpy, name)(*args)
    require(abs(float(got)-float(getattr(numpy, name)(*args))) < 1e-14,
            '%s(): %r', name, got)
    return 'name'


RUN = {'large': run_large, 'unary': run_unary, 'binary': run_binary, 'arith': run_arith,
       'inplace': run_inplace, 'matmul': run_matmul, 'creation': run_creation,
       'extraction': run_extraction, 'misc': run_misc}
CHECK = {'large creation': check_large_creation, 'unary': check_unary, 'binary': check_binary, 'arith': check_arith,
         'inplace': check_inplace, 'neg': check_neg, 'matmul': check_matmul,
         'scalar_matrix': check_scalar_matrix, 'creation': check_creation,
         'creation_refused': check_creation_refused,
         'extraction': check_extraction, 'plain': check_plain,
         'reduction': check_reduction, 'name': check_name, 'big': check_big}


def tasks(tier):
    out = [['unary', tier, f] for f in sorted(UNARY)]
    out += [['binary', tier, f] for f in sorted(BINARY)]
    out += [['arith', tier, op] for op in OPS]
    out += [['large'], ['inplace'], ['matmul', tier], ['creation'], ['extraction', tier],
            ['misc']]
    return out


def run_task(task, ctx):
    case = None
    for case in RUN[task[0]](task, ctx):
        with ctx.case(case):
            ctx.outcome(CHECK[case[0]](case))
        ctx.state(json.dumps(case))
        ctx.traces += 1
        ctx.transitions += 1
        if ctx.full:
            return
    if case is not None:
        ctx.sample(case)


def replay(case, ctx):
    CHECK[case[0]](case)
