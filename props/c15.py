"""C15: matrix inverses carry exact uncertainties and correlations.

The reference is exact: Gauss-Jordan elimination and the factorizations of the
pseudo-inverse are done with rational dual numbers (a rational value and one
rational derivative per variable).
"""
import itertools
import json
import warnings
from fractions import Fraction as F

import numpy

from uncertainties import ufloat, UFloat, unumpy
from uncertainties import nominal_value
from uncertainties.unumpy import ulinalg

from mc.run import require, Mismatch

ID = 'C15'
LEVEL = 'model_checking'
RULE = ('a state is a distinct (matrix, kinds of the elements, container, '
        'function); a transition is one inversion; a trace is one inversion '
        'whose values and derivatives are compared with exact rationals')
ASSUMPTIONS = ['sizes above 6 (9 in the thorough check) behave like the explored ones',
               'ill-conditioned matrices are not explored (the error of NumPy '
               'itself is not in question)']

TOL = 1e-9


########################################
# Rational dual numbers

class Dual(object):
    __slots__ = 'v', 'd'

    def __init__(self, v, d=None):
        self.v = v
        self.d = d or {}

    def __add__(self, o):
        d = dict(self.d)
        for k, x in o.d.items():
            d[k] = d.get(k, 0)+x
        return Dual(self.v+o.v, d)

    def __neg__(self):
        return Dual(-self.v, {k: -x for k, x in self.d.items()})

    def __sub__(self, o):
        return self+(-o)

    def __mul__(self, o):
        d = {k: x*o.v for k, x in self.d.items()}
        for k, x in o.d.items():
            d[k] = d.get(k, 0)+x*self.v
        return Dual(self.v*o.v, d)

    def inverse(self):
        w = 1/self.v
        return Dual(w, {k: -x*w*w for k, x in self.d.items()})


def transpose(a):
    return [list(r) for r in zip(*a)]


def product(a, b):
    out = []
    for row in a:
        line = []
        for j in range(len(b[0])):
            s = Dual(F(0))
            for k in range(len(b)):
                s = s+row[k]*b[k][j]
            line.append(s)
        out.append(line)
    return out


def inverse(a):
    """Gauss-Jordan elimination (None: singular)."""
    n = len(a)
    a = [list(row)+[Dual(F(int(i == j))) for j in range(n)]
         for i, row in enumerate(a)]
    for c in range(n):
        pivot = next((r for r in range(c, n) if a[r][c].v != 0), None)
        if pivot is None:
            return None
        a[c], a[pivot] = a[pivot], a[c]
        f = a[c][c].inverse()
        a[c] = [f*x for x in a[c]]
        for r in range(n):
            if r != c and (a[r][c].v != 0 or a[r][c].d):
                f = a[r][c]
                a[r] = [x-f*y for x, y in zip(a[r], a[c])]
    return [row[n:] for row in a]


def pseudo_inverse(a):
    """For full rank matrices (None: not of full rank)."""
    t = transpose(a)
    if len(a) >= len(a[0]):
        g = inverse(product(t, a))
        return g and product(g, t)
    g = inverse(product(a, t))
    return g and product(t, g)


def dual(e):
    if isinstance(e, UFloat):
        return Dual(F(float(e.nominal_value)),
                    {id(v): F(float(x)) for v, x in e.derivatives.items()})
    return Dual(F(float(e)))


########################################
# Elements and containers

class Elements(object):

    def __init__(self):
        self.shared = ufloat(2.0, 0.125)
        self.other = ufloat(-1.0, 0.0625)
        self.exact = ufloat(3.0, 0)

    def make(self, kind, value, pos):
        """An element with the given nominal value."""
        if kind == 'U':
            return ufloat(value, 0.25*(pos+1))
        if value and not 1e-6 < abs(value) < 1e6:
            if kind == 'C':
                return (self.shared+self.other)*value
            if kind == 'D':
                return self.shared*self.other*self.exact*(value/-6)
        if kind == 'S':  # fully correlated with the other S and with C, D
            return self.shared*(value/2) if value else self.shared-2
        if kind == 'C':
            return (self.shared+self.other*(pos+1)) + (value-2+(pos+1))
        if kind == 'D':
            return self.shared*self.other*self.exact + (value+6)
        if kind == 'X':
            return ufloat(value, 0)
        if kind == 'P':
            return value
        if kind == 'I':
            return int(value) if value == int(value) else value
        if kind == 'N':
            return numpy.float64(value)
        raise ValueError(kind)


def obj(rows):
    a = numpy.empty((len(rows), len(rows[0])), dtype=object)
    for i, r in enumerate(rows):
        for j, x in enumerate(r):
            a[i, j] = x
    return a


def strided(rows):
    a = numpy.empty((2*len(rows), 2*len(rows[0])), dtype=object)
    a[::2, ::2] = obj(rows)
    return a[::2, ::2]


CONTAINERS = {
    'lists': lambda rows: [list(r) for r in rows],
    'tuples': lambda rows: tuple(tuple(r) for r in rows),
    'list of arrays': lambda rows: list(obj(rows)),
    'array': obj,
    'fortran': lambda rows: numpy.asfortranarray(obj(rows)),
    'transposed': lambda rows: obj(transpose(rows)).T,
    'strided': strided,
    'reversed': lambda rows: obj([r[::-1] for r in rows[::-1]])[::-1, ::-1],
    'matrix': lambda rows: obj(rows).view(numpy.matrix),
    'umatrix': lambda rows: obj(rows).view(unumpy.matrix),
    'read-only': lambda rows: readonly(obj(rows)),
}
MATRIX = ('matrix', 'umatrix')


def readonly(a):
    a.setflags(write=False)
    return a


SQUARE = {
    '1x1': [[-2.0]],
    '2x2': [[1.0, 2.0], [3.0, -4.0]],
    '2x2b': [[0.5, -1.25], [2.0, 8.0]],
    '2x2zero': [[0.0, 2.0], [-3.0, 5.0]],
    '2x2id': [[1.0, 0.0], [0.0, 1.0]],
    '2x2tri': [[4.0, 0.0], [7.0, -0.5]],
    '2x2small': [[2.0**-120, 2.0**-119], [3*2.0**-121, -2.0**-118]],
    '2x2large': [[2.0**130, 2.0**131], [3*2.0**129, -2.0**132]],
    '3x3': [[2.0, -1.0, 0.0], [1.0, 3.0, 1.5], [0.25, -2.0, 4.0]],
    '3x3perm': [[0.0, 0.0, 2.0], [-1.0, 0.0, 0.0], [0.0, 0.5, 0.0]],
    '4x4': [[4.0, 1.0, 0.0, -1.0], [2.0, -3.0, 0.5, 1.0],
            [0.0, 1.0, 5.0, 2.0], [1.0, 0.0, -1.5, 3.0]],
}
RECTANGULAR = {
    '1x2': [[3.0, -4.0]], '2x1': [[0.5], [2.0]],
    '1x3': [[1.0, 0.0, -2.0]], '3x1': [[1.0], [-2.0], [2.0]],
    '2x3': [[1.0, 2.0, -1.0], [0.0, 1.5, 3.0]],
    '3x2': [[2.0, -1.0], [0.5, 3.0], [1.0, 1.0]],
    '4x2': [[1.0, 0.0], [2.0, -1.0], [0.0, 3.0], [-1.0, 1.0]],
    '2x4': [[1.0, 0.0, 2.0, -1.0], [0.5, -2.0, 0.0, 1.0]],
}
# Larger, well-conditioned matrices
LARGE = {}
for _m, _n in ((5, 5), (6, 6), (7, 7), (9, 9), (5, 3), (2, 7), (10, 2)):
    LARGE['%dx%d' % (_m, _n)] = [
        [(7*i+3*j*j+i*j) % 5-2+(2.*max(_m, _n) if i == j else 0.)
         for j in range(_n)] for i in range(_m)]
KINDS = 'USCDXPIN'


def patterns(n, tier, first):
    full = 4 if tier == 'quick' else 6
    if n <= 2 or n <= 4 and (first or tier == 'thorough'):
        kinds = KINDS
        if n == 4 and tier == 'quick':
            kinds = 'USCXP'
        for p in itertools.product(kinds, repeat=n):
            yield ''.join(p)
        if kinds == KINDS:
            return
    elif n <= full and tier == 'thorough':
        for p in itertools.product('USCXP', repeat=n):
            yield ''.join(p)
    seen = set()
    for i, j in itertools.combinations(range(n), 2):
        for a, b in itertools.product(
                KINDS if tier == 'thorough' else 'USXP', repeat=2):
            for base in 'PUSC' if tier == 'thorough' else 'PS':
                p = [base]*n
                p[i], p[j] = a, b
                seen.add(''.join(p))
    seen |= {k*n for k in KINDS}
    seen |= {(KINDS*n)[i:i+n] for i in range(len(KINDS))}
    for p in sorted(seen):
        yield p


def make_rows(values, kinds, factory=None):
    factory = factory or Elements()
    n = len(values[0])
    return [[factory.make(kinds[i*n+j], x, i*n+j)
             for j, x in enumerate(r)] for i, r in enumerate(values)]


def snapshot(rows):
    return [(id(e), e.nominal_value, dict(e.derivatives), e.std_dev)
            if isinstance(e, UFloat) else repr(e) for r in rows for e in r]


def variables_of(rows):
    out = {}
    for r in rows:
        for e in r:
            if isinstance(e, UFloat):
                for v in e.derivatives:
                    out[id(v)] = v
    return out


def norm(rows):
    return max(abs(float(x)) for r in rows for x in r)


def compare(result, ref, rows, what):
    """Values and derivatives of a result against exact dual numbers."""
    require(isinstance(result, numpy.ndarray), '%s: %s', what, type(result))
    shape = (len(ref), len(ref[0]))
    require(result.shape == shape, '%s: shape %s instead of %s', what,
            result.shape, shape)
    variables = variables_of(rows)
    if not any(x for r in rows for e in r if isinstance(e, UFloat)
               for x in e.derivatives.values()):
        variables = {} if not isinstance(result[0, 0], UFloat) else variables
    scale = norm([[x.v for x in r] for r in ref])
    for i, j in itertools.product(*map(range, shape)):
        got, x = result[i, j], ref[i][j]
        require(isinstance(got, UFloat) if variables else
                isinstance(got, float), '%s: %s in the result', what,
                type(got))
        require(abs(nominal_value(got)-float(x.v)) <= TOL*scale,
                '%s[%d,%d] is %r instead of %r', what, i, j, got, float(x.v))
        if not variables:
            continue
        d = got.derivatives
        require(set(map(id, d)) <= set(variables), '%s: unrelated variable',
                what)
    for k, v in variables.items():
        size = 0
        for r in ref:
            for x in r:
                size = max(size, abs(x.d.get(k, 0)))
        da = max(abs(float(dual(e).d.get(k, 0))) for r in rows for e in r)
        bound = max(float(size), scale*da*scale)*TOL
        for i, j in itertools.product(*map(range, shape)):
            g = float(result[i, j].derivatives.get(v, 0))
            e = float(ref[i][j].d.get(k, 0))
            require(abs(g-e) <= bound, '%s: derivative of [%d,%d]: %r instead '
                    'of %r', what, i, j, g, e)
    # The uncertainty is the one of these derivatives
    for e in result.flat if variables else ():
        s = sum((F(float(d))*F(float(v.std_dev)))**2
                for v, d in e.derivatives.items())
        require(abs(F(float(e.std_dev))**2-s) <= s*F(1, 10**12),
                '%s: standard deviation %r', what, e.std_dev)


def check_type(result, container, uncertain, what):
    if container in MATRIX:
        require(isinstance(result, unumpy.matrix if uncertain else
                           numpy.matrix), '%s: type %s', what, type(result))
        if uncertain:
            nom, std = result.nominal_values, result.std_devs
            require(isinstance(nom, numpy.matrix) and nom.dtype == float and
                    isinstance(std, numpy.matrix) and std.dtype == float,
                    '%s: attributes of the matrix', what)
            require(all(a == e.nominal_value and b == e.std_dev for a, b, e in
                        zip(nom.flat, std.flat, result.flat)),
                    '%s: attributes of the matrix', what)
    else:
        require(isinstance(result, numpy.ndarray) and
                not isinstance(result, numpy.matrix), '%s: type %s', what,
                type(result))


FUNCTIONS = {
    'inv': lambda a: ulinalg.inv(a),
    'pinv': lambda a: ulinalg.pinv(a),
    'pinv,': lambda a: ulinalg.pinv(a, 1e-10),
    'pinv=': lambda a: ulinalg.pinv(a, rcond=1e-10),
    'I': lambda a: a.I,
    'getI': lambda a: a.getI(),
    '**-1': lambda a: a**-1,
    'inv.inv': lambda a: ulinalg.inv(ulinalg.inv(ulinalg.inv(a))),
    'T.T': lambda a: ulinalg.pinv(a.T).T if hasattr(a, 'T') else
    ulinalg.pinv(transpose(a)).T,
}


def values_of(name):
    for group in SQUARE, RECTANGULAR, LARGE:
        if name in group:
            return group[name]
    raise ValueError(name)


def check_inverse(case, shared=None):
    _, name, kinds, container, function = case
    values = values_of(name)
    square = len(values) == len(values[0])
    if shared is None:
        rows = make_rows(values, kinds)
        ref = pseudo_inverse([[dual(e) for e in r] for r in rows])
    else:
        rows, ref = shared
    arg = CONTAINERS[container](rows)
    before = snapshot(rows)
    result = FUNCTIONS[function](arg)
    require(snapshot(rows) == before, '%s modified its argument', function)
    what = '%s(%s)' % (function, container)
    check_type(result, container, bool(variables_of(rows)), what)
    compare(result, ref, rows, what)
    f = numpy.linalg.inv if square and function != 'pinv' else \
        numpy.linalg.pinv
    expected = f(numpy.array(values))
    got = numpy.array([[nominal_value(x) for x in r]
                       for r in numpy.array(result)], dtype=float)
    require(abs(got-expected).max() <= 1e-12*abs(expected).max(),
            '%s: not the NumPy value', what)
    return 'inverse' if square else 'pseudo-inverse'


def check_identity(case):
    """The product by the inverse is the identity, without uncertainty."""
    _, name, kinds, container = case
    rows = make_rows(SQUARE[name], kinds)
    n = len(rows)
    a = CONTAINERS[container](rows)
    if container == 'umatrix':
        products = [a*a.I, a.I*a, a*a**-1, a**0, a**2*a**-2]
    else:
        products = [numpy.dot(a, ulinalg.inv(a)), numpy.dot(ulinalg.inv(a), a)]
    scale = norm(SQUARE[name])*float(
        abs(numpy.linalg.inv(numpy.array(SQUARE[name]))).max())
    for p in products:
        for i, j in itertools.product(range(n), repeat=2):
            x = p[i, j]
            require(abs(nominal_value(x)-(i == j)) < TOL*scale**2,
                    'product with the inverse: %r', x)
            if not isinstance(x, UFloat):
                continue
            for v, d in x.derivatives.items():
                da = max(abs(float(dual(e).d.get(id(v), 0)))
                         for r in rows for e in r)
                inv = scale/norm(SQUARE[name])
                require(abs(d) <= TOL*scale**2*inv*da, 'derivative of the '
                        'product with the inverse: %r', d)
    return 'identity'


########################################
# Matrices that are not of full rank

FACTORS = {
    'outer22': ([[1.0], [-2.0]], [[3.0, 0.5]]),
    'outer23': ([[2.0], [1.0]], [[1.0, 0.0, -2.0]]),
    'outer32': ([[1.0], [0.0], [-4.0]], [[2.0, 1.0]]),
    'outer33': ([[1.0], [2.0], [-2.0]], [[1.0, -1.0, 0.5]]),
    'rank2 3x3': ([[1.0, 0.0], [2.0, 1.0], [0.0, -1.0]],
                  [[1.0, 2.0, 0.0], [0.0, 1.0, -1.0]]),
    'rank2 3x4': ([[1.0, 1.0], [0.0, 2.0], [-1.0, 1.0]],
                  [[1.0, 0.0, 2.0, -1.0], [0.0, 1.0, 1.0, 0.5]]),
}


def check_factors(case):
    """A = B C, where B and C have uncertainties: the rank is constant."""
    _, name, kb, kc, container, function = case
    b, c = FACTORS[name]
    factory = Elements()
    rb = make_rows(b, kb, factory)
    rc = make_rows(c, kc, factory)
    rows = [[sum((rb[i][k]*rc[k][j] for k in range(len(c))), 0.0)
             for j in range(len(c[0]))] for i in range(len(b))]
    db = [[dual(e) for e in r] for r in rb]
    dc = [[dual(e) for e in r] for r in rc]
    ref = product(pseudo_inverse(dc), pseudo_inverse(db))
    arg = CONTAINERS[container](rows)
    before = snapshot(rows)
    result = FUNCTIONS[function](arg)
    require(snapshot(rows) == before, '%s modified its argument', function)
    check_type(result, container, bool(variables_of(rows)), function)
    # A product can be exactly independent from a variable of the factors
    compare(result, ref, rows, function)
    return 'constant rank'


########################################
# Rank cut-off, singular matrices

DIAGONALS = [(4.0, 2.0), (4.0, -0.25), (1.0, 1e-3), (1.0, 1e-10),
             (-1.0, 1e-14), (1.0, 1e-17), (1e-5, 1e5), (3.0, 0.0),
             (4.0, 1.0, 0.125), (1.0, 1e-6, 1e-12), (0.0, 2.0, 0.0)]
RCONDS = [None, 0.0, 1e-16, 1e-15, 1e-13, 1e-9, 1e-4, 0.03125, 0.1, 0.25, 0.4,
          0.5, 0.75, 1.0]


def check_rcond(case):
    _, diagonal, rotated, rcond, how, container, uncertain = case
    n = len(diagonal)
    a = numpy.diag(diagonal)
    if rotated:
        q = numpy.array([[0.6, -0.8, 0], [0.8, 0.6, 0], [0, 0, 1]])[:n, :n]
        a = q.dot(a).dot(q)
    values = a.tolist()
    factory = Elements()
    rows = [[factory.make('U' if uncertain else 'P', x, i*n+j)
             for j, x in enumerate(r)] for i, r in enumerate(values)]
    arg = CONTAINERS[container](rows)
    args, kwargs = ((rcond,), {}) if how == 'positional' else (
        (), {'rcond': rcond})
    if rcond is None:
        args, kwargs = (), {}
    expected = numpy.linalg.pinv(a, *args, **kwargs)
    result = ulinalg.pinv(arg, *args, **kwargs)
    got = numpy.array(unumpy.nominal_values(result))
    require(result.shape == expected.shape and
            abs(got-expected).max() <= 1e-12*abs(expected).max(),
            'pinv: %r instead of %r', got.tolist(), expected.tolist())
    check_type(result, container, bool(uncertain), 'pinv')
    return 'rank cut-off'


SINGULAR = {'2x2': [[1.0, 2.0], [2.0, 4.0]], 'zero': [[0.0, 0.0], [0.0, 0.0]],
            '1x1': [[0.0]], '2x3': [[1.0, 2.0, 3.0], [0.0, 1.0, 0.0]],
            '3x1': [[1.0], [2.0], [3.0]],
            'column': [[0.0, 1.0, 2.0], [0.0, 3.0, 4.0], [0.0, 5.0, 7.0]]}


for _n in (6, 9, 12):
    SINGULAR['%dx%d' % (_n, _n)] = [
        [float((i+2*j) % 5+3*(i == j)) if i != 3 else 0. for j in range(_n)]
        for i in range(_n)]
SINGULAR['2x9'] = [[1.0]*9, [2.0]*4+[0.0]*5]


def check_powers(case):
    """Negative powers of a matrix."""
    _, name, kinds, power = case
    rows = make_rows(SQUARE[name], kinds)
    inv = inverse([[dual(e) for e in r] for r in rows])
    ref = inv
    for _ in range(power-1):
        ref = product(ref, inv)
    a = CONTAINERS['umatrix'](rows)
    for what, p in (('**-%d' % power, -power),
                    ('**numpy.int64(-%d)' % power, numpy.int64(-power))):
        result = a**p
        check_type(result, 'umatrix', bool(variables_of(rows)), what)
        compare(result, ref, rows, what)
    return 'negative powers'


def check_singular(case):
    _, name, kind, container = case
    values = SINGULAR[name]
    rows = make_rows(values, kind*144)
    try:
        numpy.linalg.inv(numpy.array(values))
    except numpy.linalg.LinAlgError:
        pass
    else:
        raise RuntimeError('not singular: %r' % name)
    try:
        result = ulinalg.inv(CONTAINERS[container](rows))
    except numpy.linalg.LinAlgError:
        if container != 'umatrix' or len(values) != len(values[0]):
            return 'singular'
        for f in (lambda a: a.I, lambda a: a.getI(), lambda a: a**-1,
                  lambda a: a**-3):
            try:
                result = f(CONTAINERS[container](rows))
            except numpy.linalg.LinAlgError:
                continue
            raise Mismatch('inverse of a singular matrix: %r' % result)
        return 'singular'
    raise Mismatch('inv() of a singular or rectangular matrix: %r' % result)


########################################
# Histories

def check_history(case):
    """Standard deviations changed after the calculation, repetitions."""
    _, name, kinds, function, container = case
    values = SQUARE.get(name) or RECTANGULAR[name]
    factory = Elements()
    rows = make_rows(values, kinds, factory)
    a = CONTAINERS[container](rows)
    r1 = FUNCTIONS[function](a)
    for v in variables_of(rows).values():
        v.std_dev = 1.5
    r2 = FUNCTIONS[function](a)
    ref = pseudo_inverse([[dual(e) for e in r] for r in rows])
    compare(r1, ref, rows, 'first '+function)
    compare(r2, ref, rows, 'second '+function)
    for x, y in zip(r1.flat, r2.flat):
        if isinstance(x, UFloat):
            require(abs((x-y).std_dev) <= 1e-12*max(x.std_dev, 1e-300) and
                    x.std_dev == y.std_dev, 'two identical inversions differ')
    # Correlations with the elements of the matrix
    for e in rows[0]:
        if isinstance(e, UFloat):
            for x in r1.flat:
                d = (x+e).derivatives
                for v, g in d.items():
                    s = float(x.derivatives.get(v, 0))+float(
                        e.derivatives.get(v, 0))
                    require(abs(g-s) <= 1e-12*max(abs(s), 1e-3), 'correlation')
    return 'history'


########################################

def group(name, tier):
    square = name in SQUARE
    values = SQUARE[name] if square else RECTANGULAR[name]
    n = len(values)*len(values[0])
    for kinds in patterns(n, tier, name in ('2x2', '2x2zero')):
        yield kinds


CORE = ('lists', 'array', 'transposed', 'matrix', 'umatrix')


def cases_of(name, kinds, tier):
    square = name in SQUARE
    small = len(kinds) <= 2 or tier == 'thorough' or len(set(kinds)) <= 2
    if tier == 'quick' and len(kinds) > 4:
        small = len(set(kinds)) == 1
    for container in CONTAINERS if small else CORE:
        fs = ['pinv']
        if square:
            fs.append('inv')
        if small and len(set(kinds)) <= 2:
            fs += ['pinv,', 'pinv=', 'T.T']
            if square:
                fs.append('inv.inv')
        if container == 'umatrix':
            fs.append('I')
            if small:
                fs.append('getI')
                if square:
                    fs.append('**-1')
        for f in fs:
            yield ['inverse', name, kinds, container, f]


def tasks(tier):
    out = []
    for name in list(SQUARE)+list(RECTANGULAR):
        for i in range(8):
            out.append(['inverse', tier, name, i])
    out += [['large', tier, name, word] for name in LARGE
            for word in LARGE_WORDS]
    out += [['factors', tier, name] for name in FACTORS]
    out += [['misc', tier], ['identity', tier], ['history', tier]]
    return out


def run_inverse(task, ctx):
    _, tier, name, part = task
    values = SQUARE.get(name) or RECTANGULAR[name]
    for i, kinds in enumerate(group(name, tier)):
        if i % 8 != part:
            continue
        rows = make_rows(values, kinds)
        ref = pseudo_inverse([[dual(e) for e in r] for r in rows])
        for case in cases_of(name, kinds, tier):
            with ctx.case(case):
                ctx.outcome(check_inverse(case, (rows, ref)))
            yield case


LARGE_WORDS = ['U', 'PPPPPPPU', 'USCDXP', 'SP']


def run_large(task, ctx):
    _, tier, name, word = task
    values = LARGE[name]
    n = len(values)*len(values[0])
    if tier == 'quick' and n > 40 and len(word) != 8:
        return
    kinds = (word*n)[:n]
    rows = make_rows(values, kinds)
    ref = pseudo_inverse([[dual(e) for e in r] for r in rows])
    for container in CORE if tier == 'quick' else CONTAINERS:
        for f in ['pinv', 'pinv='] + (
                ['inv'] if len(values) == len(values[0]) else []):
            case = ['inverse', name, kinds, container, f]
            with ctx.case(case):
                ctx.outcome('large '+check_inverse(case, (rows, ref)))
            yield case


def run_factors(task, ctx):
    _, tier, name = task
    b, c = FACTORS[name]
    nb, nc = len(b)*len(b[0]), len(c)*len(c[0])
    kinds = 'USCXP'

    def some(n):
        if n <= 2:
            return [''.join(p) for p in itertools.product(kinds, repeat=n)]
        return sorted({k*n for k in kinds} | {
            ('P'*i+k+'P'*n)[:n] for k in kinds for i in range(n)} | {
            (kinds*n)[i:i+n] for i in range(len(kinds))})
    for kb, kc in itertools.product(some(nb), some(nc)):
        if not set(kb+kc) & set('USCX'):
            continue
        for container in CORE:
            for f in ['pinv', 'pinv='] + (
                    ['T.T'] if tier == 'thorough' else []):
                case = ['factors', name, kb, kc, container, f]
                with ctx.case(case):
                    ctx.outcome(check_factors(case))
                yield case


def run_misc(task, ctx):
    for d, rot, rcond, how, container, u in itertools.product(
            DIAGONALS, (0, 1), RCONDS, ('positional', 'name'), CORE, (0, 1)):
        yield ['rcond', list(d), rot, rcond, how, container, u]
    for name, kind, container in itertools.product(SINGULAR, KINDS,
                                                   CONTAINERS):
        yield ['singular', name, kind, container]


def run_identity(task, ctx):
    _, tier = task
    for name in ('1x1', '2x2', '2x2zero', '2x2tri', '3x3', '3x3perm'):
        n = len(SQUARE[name])**2
        for kinds in sorted({k*n for k in KINDS} | {
                (KINDS*n)[i:i+n] for i in range(8)}):
            for power in range(1, 8 if tier == 'quick' else 13):
                yield ['powers', name, kinds, power]
    for name in SQUARE:
        n = len(SQUARE[name])**2
        for kinds in sorted({k*n for k in KINDS} | {
                (KINDS*n)[i:i+n] for i in range(8)} | {
                ('P'*i+k+'U'*n)[:n] for i in range(n) for k in KINDS}):
            for container in ('array', 'umatrix'):
                yield ['identity', name, kinds, container]


def run_history(task, ctx):
    for name in ('2x2', '3x3', '2x3', '3x2'):
        n = sum(map(len, SQUARE.get(name) or RECTANGULAR[name]))
        for kinds in sorted({k*n for k in KINDS} | {
                (KINDS*n)[i:i+n] for i in range(8)} | {
                ('P'*i+k+'U'*n)[:n] for i in range(n) for k in KINDS}):
            for f in ('inv', 'pinv') if name in SQUARE else ('pinv',):
                for container in ('lists', 'umatrix'):
                    yield ['history', name, kinds, f, container]


RUN = {'inverse': run_inverse, 'factors': run_factors, 'misc': run_misc,
       'large': run_large,
       'identity': run_identity, 'history': run_history}
CHECK = {'powers': check_powers, 'inverse': check_inverse, 'factors': check_factors,
         'rcond': check_rcond, 'singular': check_singular,
         'identity': check_identity, 'history': check_history}


def run_task(task, ctx):
    warnings.simplefilter('ignore')
    case = None
    for case in RUN[task[0]](task, ctx):
        if task[0] not in ('inverse', 'large', 'factors'):
            with ctx.case(case):
                ctx.outcome(CHECK[case[0]](case))
        ctx.state(json.dumps(case))
        ctx.traces += 1
        ctx.transitions += 1
        if ctx.full:
            return
    if case is not None:
        ctx.sample(case)


def replay(case, ctx):
    warnings.simplefilter('ignore')
    CHECK[case[0]](case)
