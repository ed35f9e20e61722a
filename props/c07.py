"""C07: covariance and correlation matrices are exact and consistent.

- tuples: all tuples (repetitions and permutations included) of numbers from a
  pool built from shared, exact and unrelated variables, in several
  containers, read before or not, under sequences of assignments of standard
  deviations; exact comparison with rational arithmetic.
- programs: the matrix of all the numbers of all straight-line programs.
- scale: very large and very small derivatives and deviations.
- special: NaN and infinite deviations and derivatives.
- many: many variables and many numbers.
"""
import itertools
import json
from fractions import Fraction as F

import numpy

from uncertainties import (ufloat, umath, covariance_matrix,
                           correlation_matrix)

from mc.num import mp, same, close, INF, NAN
from mc.run import require

ID = 'C07'
LEVEL = 'model_checking'
RULE = ('a state is a distinct (tuple of numbers, container, deviations); a '
        'transition is one matrix computed by the implementation; a trace is '
        'one complete history of matrices and assignments compared with the '
        'model')
ASSUMPTIONS = ['values outside the tables behave like those inside']

START = [(F(3, 2), F(1, 2)), (F(-2), F(1, 4)), (F(1), F(0))]
CHANGES = [(F(1, 2), F(1, 4), F(0)), (F(0), F(1, 4), F(1)),
           (F(2), F(0), F(1, 8)), (F(0), F(0), F(0))]


def pool():
    """(numbers, [derivatives])"""
    impl = [ufloat(float(v), float(s)) for v, s in START]
    a, b, c = impl
    u = ufloat(5, 1)      # Unrelated
    one = F(1)
    V = [v for v, s in START]
    impl += [a+b, a*b, a-b, a-a, b*c, (a+b)-b, a*0, 2*a+b/4-c, u, u*a,
             a*a, -(a+b)+a]
    model = [{0: one}, {1: one}, {2: one}, {0: one, 1: one},
             {0: V[1], 1: V[0]}, {0: one, 1: -one}, {0: one-one},
             {1: V[2], 2: V[1]}, {0: one, 1: F(0)}, {0: F(0)},
             {0: F(2), 1: F(1, 4), 2: -one}, {3: one},
             {3: V[0], 0: F(5)}, {0: 2*V[0]}, {0: F(0), 1: -one}]
    return impl, model


CONTAINERS = {
    'list': list, 'tuple': tuple,
    'array': lambda l: numpy.array(l, dtype=object),
    'array view': lambda l: numpy.array([[x, 0] for x in l],
                                        dtype=object)[:, 0],
}


def check_matrix(nums, ders, stds, container, what='covariance'):
    ref = [[sum((d[k]*e[k]*stds[k]**2 for k in d if k in e), F(0))
            for e in ders] for d in ders]
    arg = CONTAINERS[container](nums)
    got = covariance_matrix(arg)
    require(isinstance(got, list) and len(got) == len(nums)
            and all(isinstance(l, list) and len(l) == len(nums) for l in got),
            'not a square list of lists: %r', got)
    for i, line in enumerate(got):
        for j, t in enumerate(line):
            require(isinstance(t, float) and F(t) == ref[i][j],
                    'covariance(%d, %d) is %r instead of %s', i, j, t,
                    ref[i][j])
    require(all(x is y for x, y in zip(arg, nums)), 'the argument has changed')
    return ref


def check_correlation(nums, ref, container):
    if not nums or any(not ref[i][i] for i in range(len(nums))):
        return False
    got = correlation_matrix(CONTAINERS[container](nums))
    require(isinstance(got, numpy.ndarray) and got.dtype == float
            and got.shape == (len(nums),)*2, 'correlation matrix %r', got)
    for i, j in itertools.product(range(len(nums)), repeat=2):
        r = mp.mpf(ref[i][j].numerator)/ref[i][j].denominator
        q = ref[i][i]*ref[j][j]
        r /= mp.sqrt(mp.mpf(q.numerator)/q.denominator)
        require(abs(mp.mpf(float(got[i, j]))-r) <= mp.mpf(10)**-14,
                'correlation(%d, %d) is %r instead of %s', i, j, got[i, j],
                mp.nstr(r, 17))
    return True


def check_tuple(case):
    idx, container, read, changes = case[1:]
    impl, model = pool()
    nums, ders = [impl[i] for i in idx], [model[i] for i in idx]
    stds = [s for v, s in START]+[F(1)]
    if read:
        for x in nums:
            x.std_dev
    correlations = 0
    for change in [None]+changes:
        if change is not None:
            for k, s in enumerate(CHANGES[change]):
                impl[k].std_dev = float(s)
                stds[k] = s
        ref = check_matrix(nums, ders, stds, container)
        for i, x in enumerate(nums):
            require(abs(F(x.std_dev)**2-ref[i][i]) <= ref[i][i]*F(1, 10**14),
                    'std_dev of number %d: %r', i, x.std_dev)
        correlations += check_correlation(nums, ref, container)
    return correlations


def run_tuple(task, ctx):
    _, tier, first = task
    n = len(pool()[0])
    m = len(CHANGES)
    longest = 4 if tier == 'thorough' else 3
    for size in range(1, longest+1):
        seqs = [[]]+[[i] for i in range(m)]
        if size <= 2:
            seqs += [[i, j] for i in range(m) for j in range(m)]
        elif size == 4:
            seqs = [[1]]
        for rest in itertools.product(range(n), repeat=size-1):
            idx = [first]+list(rest)
            for container, read, seq in itertools.product(
                    CONTAINERS if size <= 2 else ['list', 'array'],
                    (False, True) if size <= 3 else (False,), seqs):
                case = ['tuple', idx, container, read, seq]
                with ctx.case(case):
                    k = check_tuple(case)
                    ctx.outcome('%d of %d correlation matrices'
                                % (k, len(seq)+1))
                ctx.state(json.dumps(case))
                ctx.traces += 1
                ctx.transitions += len(seq)+1
                if ctx.full:
                    return
    ctx.sample(case)


########################################

def program_steps(n):
    out = [(o, i, j) for o in '+-' for i in range(n) for j in range(n)]
    out += [('*', i, j) for i in range(n) for j in range(i+1)]
    out += [('neg', i) for i in range(n)]
    return out


def run_step(op, impl, model):
    x, (v, d) = impl[op[1]], model[op[1]]
    if op[0] == 'neg':
        impl.append(-x)
        model.append((-v, {k: -t for k, t in d.items()}))
        return
    y, (w, e) = impl[op[2]], model[op[2]]
    keys = set(d) | set(e)
    if op[0] == '+':
        impl.append(x+y)
        model.append((v+w, {k: d.get(k, 0)+e.get(k, 0) for k in keys}))
    elif op[0] == '-':
        impl.append(x-y)
        model.append((v-w, {k: d.get(k, 0)-e.get(k, 0) for k in keys}))
    else:
        impl.append(x*y)
        model.append((v*w, {k: d.get(k, 0)*w+e.get(k, 0)*v for k in keys}))


def check_program(case):
    prog, order, change = case[1:]
    impl = [ufloat(float(v), float(s)) for v, s in START]
    model = [(v, {k: F(1)}) for k, (v, s) in enumerate(START)]
    stds = [s for v, s in START]
    for op in prog:
        run_step(op, impl, model)
    ders = [d for v, d in model]
    if change is not None:
        impl[-1].std_dev
        for k, s in enumerate(CHANGES[change]):
            impl[k].std_dev = float(s)
            stds[k] = s
    if order == 'reversed':
        impl.reverse()
        ders.reverse()
    elif order == 'last twice':
        impl, ders = [impl[-1]]*2+[impl[0]], [ders[-1]]*2+[ders[0]]
    ref = check_matrix(impl, ders, stds, 'list')
    check_correlation(impl, ref, 'tuple')


def run_program(task, ctx):
    _, tier, first = task
    progs = [[first, s] for s in program_steps(4)]
    if tier == 'thorough':
        progs += [[first, s, t] for s in program_steps(4)
                  for t in program_steps(5) if 4 in t[1:]]
    for prog in progs:
        for order, change in itertools.product(
                ['direct', 'reversed', 'last twice'],
                [None]+list(range(len(CHANGES))) if len(prog) < 3 else [1]):
            case = ['program', [list(p) for p in prog], order, change]
            with ctx.case(case):
                check_program(case)
            ctx.state(json.dumps(case))
            ctx.traces += 1
            ctx.transitions += 1
            ctx.outcome('program')
            if ctx.full:
                return
    ctx.sample(case)


########################################

SCALES = [1e-300, 1e-200, 1e-150, 1e-8, 1.0, 3.0, 1e150, 1e200, 1e300]


def check_scale(case):
    s1, k1, k2, s2 = case[1:]
    x, y = ufloat(1, s1), ufloat(1, s2)
    nums = [k1*x, k2*x, k1*x+y]
    ders = [{0: k1}, {0: k2}, {0: k1, 1: 1.0}]
    got = covariance_matrix(nums)
    stds = [mp.mpf(s1), mp.mpf(s2)]
    for i, j in itertools.product(range(3), repeat=2):
        ref = sum((mp.mpf(ders[i][k])*mp.mpf(ders[j][k])*stds[k]**2
                   for k in ders[i] if k in ders[j]), mp.mpf(0))
        # Intermediate values d*s must be representable, too
        terms = [abs(ders[n][k]*[s1, s2][k]) for n in (i, j) for k in ders[n]]
        if ref > mp.mpf(2)**1000 or any(t in (0.0, INF) for t in terms):
            continue
        require(abs(mp.mpf(got[i][j])-ref) <= mp.mpf(2)**-1073+ref*1e-14,
                'covariance(%d, %d) is %r instead of %s', i, j, got[i][j],
                mp.nstr(ref, 17))
    terms = [[abs(d[k]*[s1, s2][k]) for k in d] for d in ders]
    if any(max(t) > 1e300 or max(t) < 1e-290 for t in terms):
        return 'scale'
    got = correlation_matrix(nums)
    exact = [[mp.mpf(d.get(k, 0))*stds[k] for k in (0, 1)] for d in ders]
    for i, j in itertools.product(range(3), repeat=2):
        a, b = exact[i], exact[j]
        ref = (a[0]*b[0]+a[1]*b[1])/mp.sqrt(
            (a[0]**2+a[1]**2)*(b[0]**2+b[1]**2))
        require(abs(mp.mpf(float(got[i, j]))-ref) <= 1e-14,
                'correlation(%d, %d) is %r instead of %s', i, j, got[i, j],
                mp.nstr(ref, 17))
    return 'scale and correlation'


def run_scale(task, ctx):
    for k1, k2, s2 in itertools.product(SCALES, SCALES, SCALES):
        case = ['scale', task[2], k1, k2, s2]
        with ctx.case(case):
            ctx.outcome(check_scale(case))
        ctx.state(json.dumps(case))
        ctx.traces += 1
        ctx.transitions += 1
    ctx.sample(case)


########################################

def check_special(case):
    """NaN derivatives and NaN, infinite or zero deviations."""
    s, build, t = case[1:]
    s, t = float(s), float(t)
    x, y = ufloat(0, s), ufloat(1, t)
    b = {'sqrt': lambda: umath.sqrt(x), 'sqrt+y': lambda: umath.sqrt(x)+y,
         'abs': lambda: abs(x), 'pow': lambda: x**0.5+y,
         'x': lambda: x, 'x*y': lambda: x*y, 'x+y': lambda: x+y,
         'floor': lambda: x//1, 'x*0': lambda: x*0,
         'copysign': lambda: umath.copysign(x, y)*y}[build]()
    nums = [x, y, b, y*2, ufloat(1, 3), b]
    got = covariance_matrix(nums)
    for i, n in enumerate(nums):
        sd = n.std_dev
        require(same(got[i][i], sd**2) or close(got[i][i], sd**2, 1e-14),
                'variance of number %d is %r, standard deviation %r', i,
                got[i][i], sd)
        require(same(got[4][i], 9.0 if i == 4 else 0.0),
                'covariance with an unrelated number is %r', got[4][i])
        for j in range(i):
            require(same(got[i][j], got[j][i]), 'asymmetric: %r', got)
            require(isinstance(got[i][j], float), 'not a float')
    require(same(got[2][5], got[2][2]), 'repeated number')
    # Exact variables never contribute
    if s == 0:
        require(got[0] == [0.0]*6, 'covariances of an exact variable: %r',
                got[0])
        if t == t and abs(t) < INF and 'y' in build:
            require(got[1][2] == t*t*b.derivatives[y], 'covariance %r',
                    got[1][2])
    if t == 0:
        require(got[1] == [0.0]*6, 'covariances of an exact variable: %r',
                got[1])


def run_special(task, ctx):
    for s, b, t in itertools.product(
            [0.0, 0.5, 'inf', 'nan'],
            ['sqrt', 'sqrt+y', 'abs', 'pow', 'x', 'x*y', 'x+y', 'floor',
             'x*0', 'copysign'], [0.0, 0.25, 'inf', 'nan']):
        case = ['special', s, b, t]
        with ctx.case(case):
            check_special(case)
        ctx.state(tuple(case))
        ctx.traces += 1
        ctx.transitions += 1
        ctx.outcome('special')
    with ctx.case(['empty']):
        require(covariance_matrix([]) == [] and covariance_matrix(()) == [],
                'empty matrix')
    ctx.sample(case)


########################################

def check_many(case):
    """n variables, sums of windows of variables."""
    n, width = case[1:]
    v = [ufloat(i, 0.5*(i % 3)) for i in range(n)]
    nums = []
    ders = []
    for i in range(n):
        t = v[i]
        d = {i: F(1)}
        for k in range(1, width):
            t = t+(k+1)*v[(i+k) % n]
            d[(i+k) % n] = d.get((i+k) % n, F(0))+k+1
        nums.append(t)
        ders.append(d)
    stds = [F(i % 3, 2) for i in range(n)]
    ref = check_matrix(nums, ders, stds, 'list')
    for i in range(0, n, 3):
        v[i].std_dev = 2.0
        stds[i] = F(2)
    ref = check_matrix(nums, ders, stds, 'array')
    for i, x in enumerate(nums):
        require(close(x.std_dev**2, float(ref[i][i]), 1e-14),
                'std_dev of number %d: %r', i, x.std_dev)
    check_correlation(nums, ref, 'list')


def run_many(task, ctx):
    sizes = [5, 12, 40] if task[1] == 'quick' else [5, 12, 40, 80]
    for n, width in itertools.product(sizes, (1, 2, 5, 14, 37)):
        case = ['many', n, width]
        with ctx.case(case):
            check_many(case)
        ctx.state(tuple(case))
        ctx.traces += 1
        ctx.transitions += 2
        ctx.outcome('many')
    ctx.sample(case)


def tasks(tier):
    out = [['many', tier], ['special', tier]]
    out += [['tuple', tier, i] for i in range(15)]
    out += [['program', tier, list(s)] for s in program_steps(3)]
    out += [['scale', tier, s] for s in SCALES]
    return out


def run_task(task, ctx):
    {'tuple': run_tuple, 'program': run_program, 'scale': run_scale,
     'special': run_special, 'many': run_many}[task[0]](task, ctx)


def replay(case, ctx):
    if case[0] == 'empty':
        require(covariance_matrix([]) == [] and covariance_matrix(()) == [],
                'empty matrix')
        return
    {'tuple': check_tuple, 'program': check_program, 'scale': check_scale,
     'special': check_special, 'many': check_many}[case[0]](case)
