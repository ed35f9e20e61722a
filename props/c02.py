"""C02: correlations are exact whatever was computed or observed before.

The implementation represents a result as an expression of its operands,
evaluated upon first read.  The exploration enumerates straight-line programs
over shared variables *and* every placement of reads ("which nodes are
evaluated, when, and in which final order"), plus every kind of observation
at every point of shorter programs, plus long calculations of several shapes.
All numbers are dyadic rationals with few bits: the expected values,
derivatives and cancellations are exact Fractions and must be matched exactly.
"""
import copy
import itertools
import math
import operator
import pickle
from fractions import Fraction as F

import numpy

import uncertainties
from uncertainties import ufloat, UFloat, umath, covariance_matrix

from mc.run import require

ID = 'C02'
LEVEL = 'model_checking'
RULE = ('a state is a distinct (values and exact derivatives of all numbers '
        'of the program, set of numbers already evaluated) pair reached by '
        'the model; a transition is one operation or observation executed on '
        'the implementation; a trace is one complete program whose numbers '
        'were all compared with the exact model after its last step')
ASSUMPTIONS = [
    'programs longer than the bound, or with more simultaneous variables, '
    'behave like those inside the bound (long calculations are covered for '
    'the listed shapes only)',
    'a variable may be listed with a zero derivative, or not at all, when it '
    'cancels out']

VARS = [(F(3, 2), F(1, 4)), (F(-2), F(1, 2)), (F(1, 2), F(1))]


class M(object):
    __slots__ = ('v', 'd')

    def __init__(self, v, d):
        self.v, self.d = v, d

    def key(self):
        return (self.v, tuple(sorted(self.d.items())))


def m_add(x, y, s=1):
    d = dict(x.d)
    for k, t in y.d.items():
        d[k] = d.get(k, F(0))+s*t
    return M(x.v+s*y.v, d)


def m_mul(x, y):
    d = {k: y.v*t for k, t in x.d.items()}
    for k, t in y.d.items():
        d[k] = d.get(k, F(0))+x.v*t
    return M(x.v*y.v, d)


def m_scale(x, c):
    return M(x.v*c, {k: t*c for k, t in x.d.items()})


def m_modf(x):
    i = math.floor(x.v) if x.v >= 0 else -math.floor(-x.v)
    return M(x.v-i, dict(x.d))


BIN = {'add': (operator.add, m_add),
       'sub': (operator.sub, lambda x, y: m_add(x, y, -1)),
       'mul': (operator.mul, m_mul)}
UN = {'neg': (operator.neg, lambda x: m_scale(x, -1)),
      'modf': (lambda u: umath.modf(u)[0], m_modf),
      'ldexp': (lambda u: umath.ldexp(u, 1), lambda x: m_scale(x, 2)),
      'half': (lambda u: u/2, lambda x: m_scale(x, F(1, 2))),
      'rsub': (lambda u: 1-u, lambda x: m_add(M(F(1), {}), x, -1)),
      'copy': (copy.copy, lambda x: M(x.v, dict(x.d))),
      'fsum': (lambda u: umath.fsum([u, u, 1]),
               lambda x: m_add(m_scale(x, 2), M(F(1), {})))}


def fresh(n, consts=(2,)):
    impl = [ufloat(float(v), float(s)) for v, s in VARS[:n]]
    model = [M(v, {i: F(1)}) for i, (v, s) in enumerate(VARS[:n])]
    return impl+list(consts), model+[M(F(c), {}) for c in consts]


def check_number(r, m, variables, what='number'):
    require(isinstance(r, UFloat), '%s has type %s', what, type(r).__name__)
    require(r.nominal_value == float(m.v), '%s: nominal value %r instead of %r',
            what, r.nominal_value, float(m.v))
    ders = r.derivatives
    for v in ders:
        require(any(v is w for w in variables), '%s depends on a foreign '
                'variable', what)
    var = F(0)
    comps = r.error_components()
    for k, v in enumerate(variables):
        expected = m.d.get(k)
        try:
            got = ders[v]
        except KeyError:
            require(not expected, '%s: derivative %d missing (expected %s)',
                    what, k, expected)
            require(v not in comps, '%s: error component without derivative',
                    what)
            continue
        require(expected is not None, '%s depends on unrelated variable %d',
                what, k)
        require(got == expected, '%s: derivative %d is %r instead of %s',
                what, k, got, expected)
        s = F(v.std_dev)
        require(comps[v] == abs(float(expected*s)),
                '%s: error component %r instead of %s', what, comps[v],
                abs(expected*s))
        var += (expected*s)**2
    s = r.std_dev
    if not var:
        require(s == 0, '%s: std_dev %r instead of exactly 0', what, s)
    else:
        require(abs(F(s)**2-var) <= var*F(1, 10**12),
                '%s: std_dev %r instead of sqrt(%s)', what, s, var)


def std_model(m):
    return sum((t*VARS[k][1])**2 for k, t in m.d.items())


OBS = {
    'std_dev': lambda r: r.std_dev,
    's': lambda r: r.s,
    'derivatives': lambda r: r.derivatives,
    'keyerror': lambda r: missing_key(r),
    'components': lambda r: r.error_components(),
    'repr': repr,
    'str': str,
    'format': lambda r: '{:+12.3ueS}'.format(r),
    'cov': lambda r: covariance_matrix([r, r]),
    'corr': lambda r: uncertainties.correlation_matrix([r+ufloat(1, 1), r]),
    'eq': lambda r: (r == r, r != 1, r == ufloat(1, 0)),
    'order': lambda r: (r < 1, r >= r, sorted([r, r-1])),
    'bool': bool,
    'copy': copy.copy,
    'deepcopy': copy.deepcopy,
    'pickle': lambda r: pickle.loads(pickle.dumps(r)),
    'pickle0': lambda r: pickle.dumps(r, 0),
    'use': lambda r: (r*3+r, ),
    'use_read': lambda r: (r*3-r).std_dev,
    'use_wrap': lambda r: umath.sin(r).std_dev,
    'score': lambda r: r.std_score(1) if r.std_dev else None,
    'set_derivative_view': lambda r: dict(r.derivatives),
    'numpy': lambda r: numpy.array([r, r]).sum().std_dev,
    'isnan': umath.isnan,
}


def missing_key(r):
    other = ufloat(1, 1)
    try:
        r.derivatives[other]
    except KeyError:
        pass
    else:
        require(False, 'no KeyError for an unrelated variable')
    require(other not in r.derivatives, 'reading added a variable')


def steps(size, nv, must, ops, unary):
    for op in ops:
        for i in range(size):
            for j in range(size):
                if must is not None and must not in (i, j):
                    continue
                if must is None and i >= nv and j >= nv:
                    continue
                yield (op, i, j)
    for op in unary:
        for i in ([must] if must is not None else range(nv)):
            if op == 'copy' and must is None:
                continue  # the copy of a variable is independent (see C04)
            yield (op, i, None)


def run(case, ctx, count=True):
    """case: ['lazy', nv, prog, reads after each step, final order]"""
    _, nv, prog, reads, order = case
    impl, model = fresh(nv)
    variables = impl[:nv]
    base = len(impl)
    evaluated = set()
    for n, (op, i, j) in enumerate(prog):
        if j is None:
            f, g = UN[op]
            impl.append(f(impl[i]))
            model.append(g(model[i]))
        else:
            f, g = BIN[op]
            impl.append(f(impl[i], impl[j]))
            model.append(g(model[i], model[j]))
        ctx.transitions += 1
        if n < len(reads):
            for t in reads[n]:
                s = impl[base+t].std_dev
                v = std_model(model[base+t])
                require(abs(F(s)**2-v) <= v*F(1, 10**12),
                        'std_dev %r of result %d instead of sqrt(%s) (after '
                        'step %d)', s, t, v, n)
                evaluated.add(t)
                ctx.transitions += 1
    for t in order:
        check_number(impl[base+t], model[base+t], variables, 'result %d' % t)
    for k in range(nv):
        check_number(impl[k], model[k], variables, 'variable %d' % k)
    ctx.traces += 1
    ctx.state((tuple(m.key() for m in model[base:]), tuple(sorted(evaluated))))
    ctx.outcome('cancellation' if any(
        m.d and not any(m.d.values()) for m in model[base:]) else 'lazy')


def subsets(n):
    for k in range(n+1):
        yield from itertools.combinations(range(n), k)


def lazy_programs(nv, first, depth, ops, unary):
    size0 = nv+1

    def rec(prog, size):
        if len(prog) == depth:
            yield prog
            return
        for s in steps(size, nv, size-1, ops, unary):
            yield from rec(prog+[list(s)], size+1)
    yield from rec([list(first)], size0+1)


def read_patterns(depth):
    """Which results are read after each step but the last."""
    return list(itertools.product(*[list(subsets(n+1))
                                    for n in range(depth-1)]))


def explore_lazy(task, ctx):
    _, nv, first, depth, ops, unary = task
    orders = list(itertools.permutations(range(depth)))
    if depth > 3:
        orders = [tuple(range(depth)), tuple(reversed(range(depth)))]
    patterns = read_patterns(depth)
    for prog in lazy_programs(nv, first, depth, ops, unary):
        for reads in patterns:
            for order in orders:
                case = ['lazy', nv, prog, reads, order]
                with ctx.case(case):
                    run(case, ctx)
                if ctx.full:
                    return
    ctx.sample(case)


# Observations of any kind at any point ------------------------------------

def run_obs(case, ctx):
    """case: ['obs', nv, prog, [[after step, kind, target], ...]]"""
    _, nv, prog, observations = case
    impl, model = fresh(nv)
    variables = impl[:nv]
    base = len(impl)

    def observe(n):
        for (at, kind, target) in observations:
            if at == n:
                OBS[kind](impl[target])
                ctx.transitions += 1
    observe(-1)
    for n, (op, i, j) in enumerate(prog):
        if j is None:
            f, g = UN[op]
            impl.append(f(impl[i]))
            model.append(g(model[i]))
        else:
            f, g = BIN[op]
            impl.append(f(impl[i], impl[j]))
            model.append(g(model[i], model[j]))
        ctx.transitions += 1
        observe(n)
    for t in list(range(base, len(impl)))+list(range(nv)):
        check_number(impl[t], model[t], variables, 'number %d' % t)
    ctx.traces += 1
    ctx.outcome('observed')
    ctx.state((tuple(m.key() for m in model[base:]),
               tuple(map(tuple, observations))))


def obs_points(nv, depth):
    base = nv+1
    for at in range(-1, depth):
        for target in list(range(nv))+list(range(base, base+at+1)):
            for kind in OBS:
                yield (at, kind, target)


def explore_obs(task, ctx):
    _, nv, first, depth, ops, unary, pairs = task
    points = list(obs_points(nv, depth))
    for prog in lazy_programs(nv, first, depth, ops, unary):
        if pairs:
            observations = ([list(p), list(q)] for p in points for q in points
                            if p[0] <= q[0])
        else:
            observations = ([list(p)] for p in points)
        for o in observations:
            case = ['obs', nv, prog, o]
            with ctx.case(case):
                run_obs(case, ctx)
            if ctx.full:
                return
    ctx.sample(case)


# Long calculations ----------------------------------------------------------

def long_shapes():
    def left(n, xs, every, obs):
        t = xs[0]
        for i in range(1, n):
            t = t + xs[i % len(xs)]
            if every and i % every == 0:
                OBS[obs](t)
        return t

    def right(n, xs, every, obs):
        t = xs[0]
        for i in range(1, n):
            t = xs[i % len(xs)] + t
            if every and i % every == 0:
                OBS[obs](t)
        return t

    def inplace(n, xs, every, obs):
        t = xs[0]
        for i in range(1, n):
            t += xs[i % len(xs)]
            if every and i % every == 0:
                OBS[obs](t)
        return t

    def telescope(n, xs, every, obs):
        # a-b+... : the exact sum is computed anyway
        t = xs[0]
        for i in range(1, n):
            t = (t - xs[0]) + xs[i % len(xs)] + xs[0]
            if every and i % every == 0:
                OBS[obs](t)
        return t

    def mulone(n, xs, every, obs):
        t = xs[0]
        for i in range(1, n):
            t = t*1 + xs[i % len(xs)]
            if every and i % every == 0:
                OBS[obs](t)
        return t

    def builtin_sum(n, xs, every, obs):
        return sum([xs[i % len(xs)] for i in range(n)])

    def fsum(n, xs, every, obs):
        return umath.fsum([xs[i % len(xs)] for i in range(n)])

    def npsum(n, xs, every, obs):
        a = numpy.empty(n, dtype=object)
        for i in range(n):
            a[i] = xs[i % len(xs)]
        return a.sum()

    def tree(n, xs, every, obs):
        def t(lo, hi):
            if hi-lo == 1:
                return xs[lo % len(xs)]
            mid = (lo+hi)//2
            r = t(lo, mid)+t(mid, hi)
            if every and (hi-lo) % every == 0:
                OBS[obs](r)
            return r
        return t(0, n)
    return dict(left=left, right=right, inplace=inplace, telescope=telescope,
                mulone=mulone, sum=builtin_sum, fsum=fsum, numpy=npsum,
                tree=tree)


SHAPES = long_shapes()
LONG_OBS = ['std_dev', 'derivatives', 'components', 'repr', 'str', 'eq',
            'bool', 'cov', 'copy', 'deepcopy', 'pickle', 'pickle0', 'use_read']


def run_long(case, ctx):
    """case: ['long', shape, n, number of variables, read every, by, final]"""
    _, shape, n, nv, every, obs, final = case
    if nv > 3:
        xs = [ufloat(1, 0.25) for _ in range(nv)]
        values = [(F(1), F(1, 4))]*nv
    else:
        xs = [ufloat(float(v), float(s)) for v, s in VARS[:nv]]
        values = VARS[:nv]
    r = SHAPES[shape](n, xs, every, obs)
    OBS[final](r)
    counts = [0]*nv
    for i in range(n):
        counts[i % nv] += 1
    v = sum(c*a[0] for c, a in zip(counts, values))
    require(r.nominal_value == float(v), 'nominal value %r instead of %s',
            r.nominal_value, v)
    ders = r.derivatives
    require(len(ders) == sum(1 for c in counts if c), '%d derivatives',
            len(ders))
    for x, c in zip(xs, counts):
        if c:
            require(ders[x] == c, 'derivative %r instead of %d', ders[x], c)
    var = sum((c*a[1])**2 for c, a in zip(counts, values))
    require(abs(F(r.std_dev)**2-var) <= var*F(1, 10**9),
            'std_dev %r instead of sqrt(%s)', r.std_dev, var)
    ctx.transitions += n
    ctx.traces += 1
    ctx.outcome('long')
    ctx.state(('long', shape, n, nv, every))


def long_cases(tier):
    lengths = [1, 2, 3, 10, 100, 5000] + ([50000] if tier == 'thorough' else [])
    for shape in SHAPES:
        for n in lengths:
            for nv in (1, 2, 3) + ((n,) if 3 < n <= 5000 else ()):
                for every in ([None] if shape in ('sum', 'fsum', 'numpy') else
                              [None, 1, 7, max(n//2, 1)]):
                    if nv > 3 and every and n//every > 100:
                        continue  # quadratic
                    if n >= 5000 and shape == 'telescope' and every is None:
                        pass
                    for obs in (['std_dev', 'deepcopy'] if every else [None]):
                        if obs == 'deepcopy' and every and n//every > 1000:
                            continue
                        yield ['long', shape, n, nv, every, obs, 'std_dev']
                for final in LONG_OBS[1:]:
                    yield ['long', shape, n, nv, None, None, final]


# Sums of terms of very different sizes ---------------------------------------

BIG = 2**51  # The sum of 4 of them is exact, and so are their differences


def tree_shapes(leaves):
    """Binary trees with the given (ordered) leaves, as nested tuples."""
    if len(leaves) == 1:
        yield leaves[0]
    for k in range(1, len(leaves)):
        for left in tree_shapes(leaves[:k]):
            for right in tree_shapes(leaves[k:]):
                yield (left, right)


def run_tree(case, ctx):
    """case: ['tree', shape, ops, [(coefficient, variable), ...], exponent of
    the scale (for each variable), order of the factors, inner nodes that are read]"""
    _, shape, ops, terms, scale, order, reads = case
    impl, model = fresh(2, ())
    variables = list(impl)
    factors = [F(2)**e for e in (
        scale if isinstance(scale, (list, tuple)) else [scale]*2)]
    nodes = []

    def build(node):
        if isinstance(node, int):
            coef, k = terms[node]
            c = coef*factors[k]
            x = impl[k]*float(c) if order else float(c)*impl[k]
            return x, m_scale(model[k], c)
        (a, ma), (b, mb) = build(node[0]), build(node[1])
        n = len(nodes)
        nodes.append(None)
        r = (BIN[ops[n]][0](a, b), BIN[ops[n]][1](ma, mb))
        r[1].v = F(float(r[1].v))  # Rounded nominal value, exact derivatives
        nodes[n] = r
        if n in reads:
            check_number(r[0], r[1], variables, 'node %d' % n)
        ctx.transitions += 1
        return r
    r, m = build(shape)
    check_number(r, m, variables, 'sum')
    for n, (x, mx) in enumerate(nodes):
        check_number(x, mx, variables, 'node %d' % n)
    ctx.traces += 1
    ctx.outcome('sum of different sizes')
    ctx.state(('tree', m.key(), tuple(reads)))


def tree_cases(tier):
    for k in (2, 3, 4) + ((5,) if tier == 'thorough' else ()):
        coefs = (1, BIG, -BIG) if k > 3 else (1, BIG, -BIG, -1)
        if k == 5:
            coefs = (1, BIG//2, -BIG//2)
        ops = ([('add',)*(k-1)] if k > 3 else
               list(itertools.product(('add', 'sub'), repeat=k-1)))
        for shape in tree_shapes(tuple(range(k))):
            for op in ops:
                for cs in itertools.product(coefs, repeat=k):
                    for vs in itertools.product((0, 1), repeat=k):
                        if vs[0]:
                            continue  # renaming of the variables
                        for scale in (0,) if k > 3 else (
                                0, -600, 600, [0, 200], [200, 0],
                                [-300, 300], [60, -60]):
                            for reads in (subsets(k-1) if k < 5 else
                                          [(), tuple(range(k-1))]):
                                yield ['tree', shape, op, list(zip(cs, vs)),
                                       scale, k % 2, list(reads)]


ALL_BIN = ['add', 'sub', 'mul']
ALL_UN = ['neg', 'modf', 'ldexp', 'half', 'rsub', 'copy', 'fsum']


def tasks(tier):
    out = []
    for first in steps(3, 2, None, ALL_BIN, ALL_UN):
        out.append(['lazy', 2, first, 3, ALL_BIN, ['neg', 'copy']])
    for first in steps(3, 2, None, ALL_BIN, ALL_UN):
        out.append(['lazy', 2, first, 2, ALL_BIN, ALL_UN])
    for first in steps(3, 2, None, ALL_BIN, ALL_UN):
        out.append(['obs', 2, first, 2, ['add', 'mul'], ['neg', 'fsum', 'copy'],
                    False])
    for first in steps(2, 1, None, ['sub'], ['modf']):
        out.append(['obs', 1, first, 2, ['add'], ['copy'], True])
    for i in range(16):
        out.append(['long', tier, i, 16])
    for i in range(24):
        out.append(['tree', tier, i, 24])
    if tier == 'thorough':
        for first in steps(4, 3, None, ALL_BIN, ALL_UN):
            out.append(['lazy', 3, first, 3, ALL_BIN, ALL_UN])
        for first in steps(2, 1, None, ['sub', 'mul'], ['modf']):
            out.append(['lazy', 1, first, 4, ['add', 'mul'], ['neg', 'copy']])
        for first in steps(3, 2, None, ALL_BIN, ALL_UN):
            out.append(['obs', 2, first, 3, ['add', 'mul'], ['copy'], False])
        for first in steps(2, 1, None, ALL_BIN, ALL_UN):
            out.append(['obs', 1, first, 2, ALL_BIN, ALL_UN, True])
    return out


def run_task(task, ctx):
    if task[0] == 'lazy':
        explore_lazy(task, ctx)
    elif task[0] == 'obs':
        explore_obs(task, ctx)
    else:
        cases, check = {'long': (long_cases, run_long),
                        'tree': (tree_cases, run_tree)}[task[0]]
        for n, case in enumerate(cases(task[1])):
            if n % task[3] == task[2]:
                with ctx.case(case):
                    check(case, ctx)
                if ctx.full:
                    return
                ctx.sample(case)


def replay(case, ctx):
    {'lazy': run, 'obs': run_obs, 'long': run_long,
     'tree': run_tree}[case[0]](case, ctx)
