"""C08: correlated values reproduce the requested covariance matrix.

- matrix: all matrices B B^T with small integer coefficients in B (which give
  singular and regular positive semi-definite matrices of all ranks), with all
  assignments of scales (zero included) to the values, given as covariance or
  as correlation matrices, in every container type.
- norm: correlation matrices with (nominal value, standard deviation) pairs.
- calls: histories of several calls with the same arguments, mutation of the
  arguments afterwards, and calculations that mix the results.
"""
import copy
import itertools
import json
from fractions import Fraction as F

import numpy

from uncertainties import (ufloat, UFloat, covariance_matrix,
                           correlated_values, correlated_values_norm,
                           correlation_matrix)

from mc.num import same
from mc.run import require

ID = 'C08'
LEVEL = 'model_checking'
RULE = ('a state is a distinct (matrix, scales, nominal values, tags, '
        'containers); a transition is one call executed on the '
        'implementation; a trace is one case in which all the resulting '
        'numbers were compared with the request')
ASSUMPTIONS = ['matrices outside the tables behave like those inside',
               'LAPACK eigendecomposition is accurate to 1e-14 relative to '
               'the norm of the correlation matrix']

TOL = 1e-13


def matrices(n, m, coefs):
    """Distinct matrices B B^T for B of shape n x m (exact integers)."""
    seen = set()
    for b in itertools.product(coefs, repeat=n*m):
        rows = [b[i*m:(i+1)*m] for i in range(n)]
        a = tuple(tuple(sum(x*y for x, y in zip(r, s)) for s in rows)
                  for r in rows)
        if a not in seen:
            seen.add(a)
            yield a


def all_matrices(tier):
    out = []
    for n, m, coefs in [(1, 1, (0, 1, 2)), (2, 2, (-1, 0, 1, 2)),
                        (3, 1, (-2, -1, 0, 1, 2)),
                        (3, 2, (-1, 0, 1)),
                        (3, 3, (0, 1) if tier == 'quick' else (-1, 0, 1)),
                        (4, 1, (-1, 0, 1, 3))]+(
                            [(4, 2, (-1, 0, 1)), (4, 4, (0, 1)),
                             (5, 2, (0, 1, -1))]
                            if tier == 'thorough' else [(4, 2, (0, 1))]):
        out += matrices(n, m, coefs)
    # Almost singular matrices (correlations close to 0, 1 and -1); their
    # coefficients are exact floats
    for k in (5, 9, 15, 18, 20):
        small = 2.0**-k
        for n, m, coefs in [(2, 2, (-1, 0, 1, small)),
                            (3, 2, (1, small)), (3, 3, (1, small))]+(
                                [(3, 3, (-1, 0, small)), (4, 2, (1, small)),
                                 (4, 3, (1, small))]
                                if tier == 'thorough' else []):
            out += matrices(n, m, coefs)
    return sorted(set(out), key=lambda a: (len(a), a))


def integers(a):
    return all(x == int(x) for r in a for x in r)


SCALES = [1.0, 0.0, 1e-9, 1e12, 1e-120, 1e140, 3.7]


def scale_tuples(n, tier):
    if n <= 2:
        return list(itertools.product(SCALES, repeat=n))
    if n == 3:
        return list(itertools.product(SCALES if tier == 'thorough' else
                                      SCALES[:4], repeat=n))
    out = [(1.0,)*n, (1e-120,)*n, (1e140,)*n]
    for i in range(n):
        for s in SCALES[1:]:
            t = [1.0]*n
            t[i] = s
            t[(i+1) % n] = 1e-9
            out.append(tuple(t))
    return out


CONTAINERS = {
    'list': lambda a: [list(map(float, r)) for r in a],
    'tuple': lambda a: tuple(tuple(map(float, r)) for r in a),
    'array': lambda a: numpy.array(a, dtype=float),
    'fortran': lambda a: numpy.asfortranarray(numpy.array(a, dtype=float)),
    'view': lambda a: numpy.array([list(r)+[7.0] for r in a])[:, :-1],
    'read-only': lambda a: readonly(a),
    'matrix': lambda a: numpy.matrix(numpy.array(a, dtype=float)),
    'object': lambda a: numpy.array(a, dtype=object),
    'ints': lambda a: [[int(x) for x in r] for r in a],
    'int array': lambda a: numpy.array([[int(x) for x in r] for r in a]),
}


def readonly(a):
    r = numpy.array(a, dtype=float)
    r.flags.writeable = False
    return r


VALUES = [1.5, -2, 0.0, 1e300, 5]+[0.25*k-3 for k in range(40)]
VALUE_CONTAINERS = {'list': list, 'tuple': tuple,
                    'array': lambda v: numpy.array(v, dtype=float),
                    'ints': lambda v: numpy.array([3]*len(v))}
TAGS = {'none': lambda n: None, 'list': lambda n: ['t%d' % i for i in range(n)],
        'tuple': lambda n: tuple(range(n)), 'same': lambda n: ['x']*n}


def snapshot(a):
    return copy.deepcopy(a)


def unchanged(a, b):
    if isinstance(a, numpy.ndarray):
        return (type(a) is type(b) and a.dtype == b.dtype and
                a.shape == b.shape and bool(numpy.all(a == b)))
    return a == b and type(a) is type(b)


def check_result(got, nominal, cov, stds, tags, n):
    """got reproduces nominal values and covariances (floats)."""
    require(isinstance(got, (tuple, list)) and len(got) == n,
            'result is %r', type(got))
    for i in range(n):
        require(isinstance(got[i], UFloat), 'element %d is a %s', i,
                type(got[i]).__name__)
        require(same(got[i].nominal_value, float(nominal[i])),
                'nominal value %d: %r instead of %r', i, got[i].nominal_value,
                nominal[i])
        s = got[i].std_dev
        require(abs(s-stds[i]) <= TOL*stds[i],
                'standard deviation %d: %r instead of %r', i, s, stds[i])
    c = covariance_matrix(got)
    for i, j in itertools.product(range(n), repeat=2):
        require(abs(c[i][j]-cov[i][j]) <= TOL*stds[i]*stds[j],
                'covariance(%d, %d): %r instead of %r', i, j, c[i][j],
                cov[i][j])
    # Only new variables, with the requested tags
    variables = {}
    for x in got:
        for v in x.derivatives:
            variables[id(v)] = v
    require(len(variables) == n, '%d new variables', len(variables))
    ref = sorted(map(repr, tags)) if tags is not None else [repr(None)]*n
    require(sorted(repr(v.tag) for v in variables.values()) == ref,
            'tags %r', [v.tag for v in variables.values()])
    return variables


def check_matrix(case):
    a, scales, container, vcontainer, tags = case[1:]
    n = len(a)
    cov = [[float(a[i][j])*scales[i]*scales[j] for j in range(n)]
           for i in range(n)]
    stds = [float(numpy.sqrt(float(a[i][i])))*scales[i] for i in range(n)]
    nominal = VALUE_CONTAINERS[vcontainer](VALUES[:n])
    m = CONTAINERS[container](cov)
    t = TAGS[tags](n)
    before = snapshot([nominal, m, t])
    got = correlated_values(nominal, m, *([] if t is None else [t]))
    for x, y, name in zip([nominal, m, t], before,
                          ['nominal values', 'matrix', 'tags']):
        require(unchanged(x, y), '%s were modified: %r', name, x)
    check_result(got, nominal, cov, stds, t, n)
    return got


def run_matrix(task, ctx):
    _, tier, index, step = task
    for number, a in enumerate(all_matrices(tier)):
        if number % step != index:
            continue
        n = len(a)
        for scales in scale_tuples(n, tier):
            case = ['matrix', a, scales, 'array', 'list', 'none']
            yield case
        for container, vc, tags in itertools.product(
                CONTAINERS if integers(a) else ['list', 'array', 'matrix'],
                VALUE_CONTAINERS, TAGS):
            yield ['matrix', a, [1.0]*n, container, vc, tags]
        yield ['tidy', a]


# Larger matrices

LARGE = {
    'identity': lambda n: [[float(i == j) for j in range(n)]
                           for i in range(n)],
    'rank 1': lambda n: [[1.0]*n for i in range(n)],
    'rank 1, scaled': lambda n: [[float((i+1)*(j+1)) for j in range(n)]
                                 for i in range(n)],
    'cumulative': lambda n: [[float(min(i, j)+1) for j in range(n)]
                             for i in range(n)],
    'tridiagonal': lambda n: [[2.0 if i == j else -1.0 if abs(i-j) == 1
                               else 0.0 for j in range(n)] for i in range(n)],
    'blocks': lambda n: [[1.0+(i == j) if i//2 == j//2 else 0.0
                          for j in range(n)] for i in range(n)],
    'exact values': lambda n: [[float(i+1) if i == j and i % 2 else 0.0
                                for j in range(n)] for i in range(n)],
    'one correlation': lambda n: [[1.0 if i == j else 0.5 if {i, j} == {0, n-1}
                                   else 0.0 for j in range(n)]
                                  for i in range(n)],
    'sum of all': lambda n: [[float((i == j) or (n-1 if i == j == n-1 else
                                                 n-1 in (i, j)))
                              if not i == j == n-1 else float(n-1)
                              for j in range(n)] for i in range(n)],
}


def run_large(task, ctx):
    _, tier = task
    top = 13 if tier == 'quick' else 31
    for name, n in itertools.product(LARGE, range(4, top)):
        yield ['large', name, n, 'none', 'matrix']
        yield ['large', name, n, 'list', 'matrix']
        yield ['large', name, n, 'none', 'units']
        yield ['large', name, n, 'tuple', 'norm']


def check_large(case):
    _, name, n, tags, how = case
    a = LARGE[name](n)
    scales = [10.0**((7*i) % 13-6) if how == 'units' else 1.0
              for i in range(n)]
    cov = [[a[i][j]*scales[i]*scales[j] for j in range(n)] for i in range(n)]
    stds = [a[i][i]**0.5*scales[i] for i in range(n)]
    t = TAGS[tags](n)
    if how == 'norm':
        norm = [s or 1.0 for s in stds]
        corr = [[cov[i][j]/norm[i]/norm[j] for j in range(n)]
                for i in range(n)]
        got = correlated_values_norm(list(zip(VALUES[:n], stds)), corr, t)
    else:
        got = correlated_values(VALUES[:n], cov, t)
    check_result(got, VALUES[:n], cov, stds, t, n)


def check_tidy(case):
    """The combinations of the values are as expected, too."""
    a = case[1]
    n = len(a)
    got = correlated_values(VALUES[:3]+[7.0, 9.0][:n-3] if n > 3
                            else VALUES[:n], a)
    biggest = max(a[i][i] for i in range(n))
    for coefs in itertools.product((-1, 0, 2), repeat=n):
        total = sum(c*x for c, x in zip(coefs, got))
        if not any(coefs):
            continue
        var = sum(coefs[i]*coefs[j]*a[i][j] for i in range(n)
                  for j in range(n))
        require(abs(total.std_dev**2-var) <= 1e-12*biggest*n*n,
                'variance of the combination %r: %r instead of %r', coefs,
                total.std_dev**2, var)


########################################

PAIRS = {'list of tuples': lambda p: [tuple(q) for q in p],
         'tuple of lists': lambda p: tuple(list(q) for q in p),
         'array': lambda p: numpy.array(p, dtype=float),
         'zip list': lambda p: list(zip(*zip(*p)))}


def check_norm(case):
    a, scales, container, pcontainer, tags = case[1:]
    n = len(a)
    base = [float(numpy.sqrt(float(a[i][i]))) for i in range(n)]
    # Null values have a null line, with an arbitrary diagonal
    corr = [[(float(a[i][j])/base[i]/base[j] if base[i] and base[j] and
              scales[i] and scales[j] else 0.0) if i != j else
             (1.0 if base[i] else 0.5) for j in range(n)] for i in range(n)]
    stds = [scales[i] if base[i] else 0.0 for i in range(n)]
    cov = [[corr[i][j]*stds[i]*stds[j] if i != j else stds[i]**2
            for j in range(n)] for i in range(n)]
    pairs = PAIRS[pcontainer](list(zip(VALUES[:n], stds)))
    m = CONTAINERS[container](corr)
    t = TAGS[tags](n)
    before = snapshot([pairs, m, t])
    got = correlated_values_norm(pairs, m, *([] if t is None else [t]))
    for x, y, name in zip([pairs, m, t], before, ['pairs', 'matrix', 'tags']):
        require(unchanged(x, y), '%s were modified: %r', name, x)
    check_result(got, VALUES[:n], cov, stds, t, n)
    if all(stds) and min(stds) > 1e-100 and max(stds) < 1e100:
        c = correlation_matrix(got)
        require(abs(c-numpy.array(corr)).max() <= 1e-12,
                'correlation matrix %r instead of %r', c, corr)


def run_norm(task, ctx):
    _, tier, index, step = task
    for number, a in enumerate(all_matrices(tier)):
        if number % step != index:
            continue
        n = len(a)
        for scales in scale_tuples(n, tier):
            yield ['norm', a, scales, 'array', 'list of tuples', 'none']
        for container, pc, tags in itertools.product(
                CONTAINERS if integers(a) else ['list', 'matrix'],
                PAIRS, TAGS):
            if container not in ('ints', 'int array'):
                yield ['norm', a, [1.0]*n, container, pc, tags]


########################################

CALL_MATRICES = [((1, 0), (0, 4)), ((1, 1), (1, 1)), ((2, 1), (1, 3)),
                 ((4, 0), (0, 0)), ((1, -1), (-1, 1))]
CALL_EVENTS = ['cov', 'norm', 'mutate', 'read', 'sum', 'zero variable']


def check_calls(case):
    """Histories of calls with the same (mutable) arguments."""
    a, events = case[1:]
    m = numpy.array(a, dtype=float)
    nominal = numpy.array([1.0, -2.0])
    std = numpy.sqrt(numpy.diag(m))
    norm = numpy.where(std == 0, 1, std)
    corr = m/norm/norm[:, None]
    pairs = numpy.array(list(zip(nominal, std)))
    tags = ['p', 'q']
    current = [[float(x) for x in r] for r in m]
    x0 = ufloat(1, 0.5, tag='x0')
    groups = []
    mutated = False
    for ev in events:
        if ev == 'cov' and not mutated:
            groups.append((correlated_values(nominal, m, tags), current))
        elif ev == 'norm' and not mutated:
            groups.append((correlated_values_norm(pairs, corr, tags), current))
        elif ev == 'mutate':
            m += 7
            corr *= 3
            nominal[:] = 99
            pairs[:] = 55
            tags[:] = ['changed']*2
            mutated = True
        elif ev == 'read':
            for g, _ in groups:
                for x in g:
                    x.std_dev, x.derivatives, str(x)
        elif ev == 'sum' and groups:
            g, c = groups[-1]
            s = g[0]+g[1]+x0
            var = sum(map(sum, c))+0.25
            require(abs(s.std_dev**2-var) <= 1e-12*var, 'sum %r', s)
        elif ev == 'zero variable' and groups:
            # All the uncertainty comes from the new variables
            g, c = groups.pop()
            for x in g:
                for v in x.derivatives:
                    v.std_dev = 0
            require(all(x.std_dev == 0 for x in g), 'still uncertain: %r', g)
    for g, c in groups:
        check_result(g, [1.0, -2.0], c, [c[0][0]**.5, c[1][1]**.5],
                     ['p', 'q'], 2)
    flat = [x for g, _ in groups for x in g]+[x0]
    cov = covariance_matrix(flat)
    for i in range(len(flat)):
        for j in range(i):
            if i//2 != j//2:
                require(cov[i][j] == 0 and not set(flat[i].derivatives)
                        & set(flat[j].derivatives),
                        'numbers %d and %d are correlated', i, j)


def run_calls(task, ctx):
    _, tier, index = task
    for k in range(1, 6 if tier == 'thorough' else 5):
        for events in itertools.product(CALL_EVENTS, repeat=k):
            if events[0] in ('cov', 'norm'):
                yield ['calls', CALL_MATRICES[index], events]


RUN = {'matrix': run_matrix, 'norm': run_norm, 'calls': run_calls,
       'large': run_large}
CHECK = {'matrix': check_matrix, 'tidy': check_tidy, 'norm': check_norm,
         'calls': check_calls, 'large': check_large}


def tasks(tier):
    out = [[kind, tier, i, 24] for kind in ('matrix', 'norm')
           for i in range(24)]
    out.append(['large', tier])
    return out+[['calls', tier, i] for i in range(len(CALL_MATRICES))]


def run_task(task, ctx):
    case = None
    for case in RUN[task[0]](task, ctx):
        with ctx.case(case):
            CHECK[case[0]](case)
        ctx.state(json.dumps(case))
        ctx.traces += 1
        ctx.transitions += len(case[2]) if case[0] == 'calls' else 1
        ctx.outcome(case[0])
        if ctx.full:
            return
    ctx.sample(case)


def replay(case, ctx):
    CHECK[case[0]](case)
