"""C16: concurrent or interrupted use never corrupts a number.

The real code runs in real threads under a controlled scheduler (mc/sched.py):
every instruction of the package that can touch shared state is a point where
the running thread can be preempted. All the schedules up to a number of
preemptions are executed. Interruptions (KeyboardInterrupt, MemoryError) are
injected at every instruction where CPython can raise them.
"""
import copy
import itertools
import json
import pickle
import warnings

import numpy

from uncertainties import ufloat, UFloat, umath, unumpy, wrap
from uncertainties import covariance_matrix, correlation_matrix
from uncertainties import ufloat_fromstr, correlated_values, nominal_value
from uncertainties.unumpy import ulinalg

from mc import sched
from mc.run import require, Mismatch

ID = 'C16'
LEVEL = 'model_checking'
RULE = ('a state is a distinct (program, schedule) or (program, interruption '
        'points); a transition is one scheduling or interruption point '
        'passed; a trace is one complete execution of the real code, all of '
        'whose results, and all the numbers afterwards, are compared with '
        'those of a single uninterrupted thread')
ASSUMPTIONS = ['the bytecode instructions of the package that only handle '
               'local variables commute with the other threads',
               'C functions are atomic (global interpreter lock)',
               'more threads or preemptions do not reveal more']


########################################
# Shared numbers

class Space(object):
    """The shared numbers, and the names of the variables."""

    def __init__(self, **objects):
        self.__dict__.update(objects)
        self.names = {id(v): k for k, v in objects.items()}
        self.numbers = [k for k, v in sorted(objects.items())
                        if isinstance(v, UFloat)]

    def describe(self, a):
        if isinstance(a, UFloat):
            d = sorted((self.names.get(id(v), '?'), repr(float(g)),
                        repr(float(v.std_dev)))
                       for v, g in a.derivatives.items())
            return (repr(float(a.nominal_value)), repr(float(a.std_dev)), d)
        if isinstance(a, numpy.ndarray):
            return [self.describe(e) for e in a.flat]
        if isinstance(a, (list, tuple)):
            return [self.describe(e) for e in a]
        return repr(a)


def nested():
    x, y, z = ufloat(1, 0.5, 'x'), ufloat(2, 0.25), ufloat(-0.5, 0.125)
    s = x+y
    t = s*x-y
    u = t+s*z
    return Space(x=x, y=y, z=z, s=s, t=t, u=u)


def partly_read():
    p = nested()
    p.s.std_dev
    return p


def small():
    x, y = ufloat(1, 0.5), ufloat(2, 0.25)
    s = x+y
    u = s*x
    return Space(x=x, y=y, s=s, u=u, t=s*2, z=y)


def sums():
    x, y, z = ufloat(1, 0.5), ufloat(2, 0.25), ufloat(-0.5, 0.125)
    t = x+y+z+x
    s = t+z+t
    u = sum([x, y, s, t, s], 0)
    return Space(x=x, y=y, z=z, s=s, t=t, u=u)


SETUPS = {'nested': nested, 'partly read': partly_read, 'small': small,
          'sums': sums}

OPS = {
    'std': lambda p: p.u.std_dev,
    'derivatives': lambda p: p.u,
    'components': lambda p: sorted(
        (p.names[id(v)], e) for v, e in p.u.error_components().items()),
    'repr': lambda p: repr(p.u),
    'format': lambda p: '{:.2uS} {:P}'.format(p.u, p.u),
    'latex': lambda p: '{:+.3eL}'.format(p.u),
    'str s': lambda p: str(p.s),
    'std t': lambda p: p.t.std_dev,
    'std s': lambda p: p.s.std_dev,
    'equal': lambda p: (p.u == p.t, p.u == p.u+0, p.u <= p.t),
    'product': lambda p: p.u*p.t,
    'product u': lambda p: p.s*p.s-p.t,
    'sin': lambda p: umath.sin(p.u),
    'hypot': lambda p: umath.hypot(p.u, p.s),
    'copy': lambda p: (copy.copy(p.u), p.u-copy.copy(p.u)),
    'deepcopy': lambda p: copy.deepcopy(p.u),
    'deepcopies': lambda p: copy.deepcopy([p.u, p.x]),
    'pickle': lambda p: pickle.loads(pickle.dumps(p.u, 2)),
    'pickle all': lambda p: pickle.loads(pickle.dumps((p.s, p.t, p.u, p.x))),
    'covariance': lambda p: covariance_matrix([p.u, p.t, p.x]),
    'correlation': lambda p: correlation_matrix([p.u, p.s]).tolist(),
    'bool': lambda p: bool(p.u-p.u),
    'sorted': lambda p: sorted([p.u, p.t, p.s]),
    'std_devs': lambda p: unumpy.std_devs([p.u, p.t]).tolist(),
    'std_score': lambda p: p.u.std_score(3),
    'sqrt array': lambda p: unumpy.exp(numpy.array([p.s, p.t])),
    'correlated': lambda p: [x-nominal_value(x) for x in correlated_values(
        [1, 2], covariance_matrix([p.u, p.s]))],
}
BIG = {
    'inv': lambda p: ulinalg.inv([[p.u, p.t], [p.s, p.x]]),
    'sum array': lambda p: numpy.array([p.u, p.t, p.s]).sum(),
    'parse': lambda p: ufloat_fromstr('12.3(4)e5')+p.u,
}


########################################
# Wrapped functions

def two(a, b):
    return a*a+3*b


def var(*args):
    return args[0]*2+args[1]*4+args[-1]*args[0]


def keys(a, **kw):
    return a*kw['b']+2*kw['c']


def da(a, b):
    return 2*a


def db(a, b):
    return 3


def forever(*functions):
    return itertools.chain(functions, itertools.repeat(None))


def generator(*functions):
    for f in functions:
        yield f


V1 = (lambda *a: 2+a[-1]), (lambda *a: 4), (lambda *a: a[0])

FUNCTIONS = {
    'numerical': lambda: wrap(two),
    'analytical': lambda: wrap(two, [da, db]),
    'second': lambda: wrap(two, [None, db]),
    'short': lambda: wrap(two, [da]),
    'names': lambda: wrap(two, [], {'a': da, 'b': None}),
    'infinite': lambda: wrap(two, forever(da, db)),
    'generator': lambda: wrap(two, generator(da, db)),
    'var': lambda: wrap(var, V1),
    'var numerical': lambda: wrap(var),
    'var mixed': lambda: wrap(var, [None, V1[1], None]),
    'var infinite': lambda: wrap(var, forever(*V1)),
    'var generator': lambda: wrap(var, generator(*V1)),
    'keys': lambda: wrap(keys),
    'keys given': lambda: wrap(keys, [lambda a, b, c: b], {
        'c': lambda a, b, c: 2}),
}
CALLS_TWO = {
    'xy': lambda p: p.f(p.x, p.y), 'yx': lambda p: p.f(p.y, p.x),
    'x1': lambda p: p.f(p.x, 1.5), '1y': lambda p: p.f(1.5, p.y),
    'xb': lambda p: p.f(p.x, b=p.y), 'ab': lambda p: p.f(b=p.x, a=p.y),
    '1b': lambda p: p.f(1.5, b=p.s),
}
CALLS_VAR = {
    'xyz': lambda p: p.f(p.x, p.y, p.z), '1yz': lambda p: p.f(1.5, p.y, p.z),
    '11z': lambda p: p.f(1.5, 2, p.z), 'xy': lambda p: p.f(p.x, p.y, 2.5),
    'zyx': lambda p: p.f(p.z, p.y, p.x),
}
CALLS_KEYS = {
    'xyz': lambda p: p.f(p.x, b=p.y, c=p.z),
    'x1z': lambda p: p.f(p.x, b=2.0, c=p.z),
    '1zy': lambda p: p.f(1.5, c=p.z, b=p.y),
}


def calls_of(name):
    return (CALLS_VAR if name.startswith('var') else
            CALLS_KEYS if name.startswith('keys') else CALLS_TWO)


def wrapped(name):
    def setup():
        p = nested()
        p.f = FUNCTIONS[name]()
        return p
    return setup


########################################
# Programs: a setup and some operations

def program(spec):
    """(setup, {name: operation}, probes run at the end)."""
    kind, name = spec
    if kind == 'numbers':
        return SETUPS[name], dict(OPS, **BIG), []
    calls = calls_of(name)
    return wrapped(name), calls, [calls[c] for c in sorted(calls)]


_EXPECTED = {}


def expected(spec, op):
    """Results of a single thread (and of everything afterwards)."""
    key = tuple(spec)+(op,)
    if key not in _EXPECTED:
        setup, ops, probes = program(spec)
        p = setup()
        r = None
        if op is not None:
            r = p.describe(ops[op](p))
        p = setup()
        _EXPECTED[key] = r, final(p, probes)
    return _EXPECTED[key]


def final(p, probes):
    return ([p.describe(getattr(p, k)) for k in p.numbers],
            [p.describe(f(p)) for f in probes])


def close(a, b):
    """Equality of descriptions, except for the order of additions."""
    if isinstance(a, str) and isinstance(b, str):
        if a == b:
            return True
        try:
            x, y = float(a), float(b)
        except ValueError:
            return False
        return abs(x-y) <= 1e-12*max(abs(x), abs(y), 1e-3)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(map(close, a, b))
    return a == b


def check_result(got, exp, what):
    require(close(got, exp), '%s: %s instead of %s', what, got, exp)


def check_run(spec, names, plan):
    setup, ops, probes = program(spec)
    exps = [expected(spec, n) for n in names]
    p = setup()
    run = sched.Run([(lambda f=ops[n]: f(p)) for n in names], plan)
    results = run.execute()
    what = 'preemptions after %s points' % plan
    require(not run.deadlock, '%s: the threads are blocked', what)
    for n, (kind, r), (e, _) in zip(names, results, exps):
        if kind == 'exception':
            raise Mismatch('%s: %s raises %r' % (what, n, r))
        check_result(p.describe(r), e, '%s: result of %s' % (what, n))
    got = final(p, probes)
    check_result(got[0], exps[0][1][0], what+': numbers afterwards')
    check_result(got[1], exps[0][1][1], what+': function afterwards')
    return run


def explore(spec, names, bound, ctx, kind, check, part=0, parts=1):
    """All the schedules with up to some preemptions."""
    def deeper(prefix):
        k = 1
        while True:
            plan = prefix+[k]
            if parts > 1 and not prefix and (k-1) % parts != part:
                # Executed by another task (is this the last one?)
                try:
                    run = check(spec, names, plan)
                except Exception:
                    return  # (a violation that the other task reports)
                if run.used < 1:
                    return
                k += 1
                continue
            case = [kind, list(spec), list(names), plan]
            run = None
            with ctx.case(case):
                run = check(spec, names, plan)
            ctx.traces += 1
            ctx.state(json.dumps(case))
            if run is not None:
                ctx.transitions += sum(t.points for t in run.tasks)
            ctx.outcome('%s, %d preemption%s' % (
                kind, len(plan), 's'*(len(plan) > 1)))
            if ctx.full or run is None or run.used < len(plan):
                return
            if len(plan) < bound:
                deeper(plan)
            k += 1
    deeper([])


########################################
# Standard deviation assigned while a number is read

READS = ('std', 'repr', 'latex', 'std s', 'deepcopy', 'pickle', 'str s',
         'std_score')
NEW = 4.0


def check_assign(spec, names, plan):
    """One thread assigns a deviation: the others see the old or new one."""
    setup, ops, _ = program(spec)
    p = setup()
    old = [n != 'assign' and expected(spec, n)[0] for n in names]
    key = tuple(spec)+('assigned',)
    if key not in _EXPECTED:
        q = setup()
        q.x.std_dev = NEW
        _EXPECTED[key] = {n: q.describe(ops[n](q)) for n in READS}, final(
            q, [])
    new, end = _EXPECTED[key]

    def assign():
        p.x.std_dev = NEW
    functions = [(lambda f=ops[n]: f(p)) if n != 'assign' else assign
                 for n in names]
    run = sched.Run(functions, plan)
    results = run.execute()
    what = 'preemptions after %s points' % plan
    require(not run.deadlock, '%s: the threads are blocked', what)
    for n, (kind, r), e in zip(names, results, old):
        require(kind == 'value', '%s: %s raises %r', what, n, r)
        if n != 'assign':
            r = p.describe(r)
            require(close(r, e) or close(r, new[n]), '%s: %s: %s instead of '
                    '%s or %s', what, n, r, e, new[n])
    check_result(final(p, []), end, what+': numbers afterwards')
    return run


########################################
# Interruptions

EXCEPTIONS = {'K': KeyboardInterrupt, 'M': MemoryError}


def check_interrupted(spec, name, where, exception):
    """Some successive attempts are interrupted at the given points."""
    setup, ops, probes = program(spec)
    exp, end = expected(spec, name)
    p = setup()
    f = ops[name]
    exc = EXCEPTIONS[exception]
    reached = True
    seen = 0
    for k in where:
        kind, r, n = sched.interrupted(lambda: f(p), k, exc)
        seen += n
        reached = n >= k
        what = '%s interrupted at point %s' % (name, where)
        if kind == 'exception':
            require(reached and isinstance(r, exc), '%s: %r', what, r)
        else:
            check_result(p.describe(r), exp, what+': result')
    check_result(p.describe(f(p)), exp, what+': later result')
    got = final(p, probes)
    check_result(got[0], end[0], what+': numbers afterwards')
    check_result(got[1], end[1], what+': function afterwards')
    return reached, seen


def explore_interruptions(spec, name, depth, exceptions, ctx):
    for exception in exceptions:
        def deeper(prefix):
            k = 1
            while True:
                where = prefix+[k]
                case = ['interrupted', list(spec), name, where, exception]
                reached = False
                with ctx.case(case):
                    reached, seen = check_interrupted(spec, name, where,
                                                      exception)
                    ctx.transitions += seen
                ctx.traces += 1
                ctx.state(json.dumps(case))
                ctx.outcome('interrupted, %d time%s' % (
                    len(where), 's'*(len(where) > 1)))
                if ctx.full or not reached:
                    return
                if len(where) < depth:
                    deeper(where)
                k += 1
        deeper([])


# Interrupted modifications: the old or the new state, nothing else

def set_std(p):
    p.x.std_dev = NEW


def set_std_numpy(p):
    p.x.std_dev = numpy.float32(NEW)


def set_tag(p):
    p.x.tag = 'new'


def in_place(p):
    p.u += p.x


def in_place_array(p):
    p.a += p.x


CHANGES = {'std_dev': set_std, 'std_dev numpy': set_std_numpy,
           'tag': set_tag, '+=': in_place, 'array +=': in_place_array}


def change_setup():
    p = nested()
    p.a = numpy.array([p.u])
    return p


def describe_all(p):
    return [p.describe(getattr(p, k)) for k in p.numbers+['a']]+[p.x.tag]


def check_change(name, where, exception):
    p = change_setup()
    old = describe_all(p)
    p = change_setup()
    CHANGES[name](p)
    new = describe_all(p)
    p = change_setup()
    kind, r, n = sched.interrupted(lambda: CHANGES[name](p), where,
                                   EXCEPTIONS[exception])
    got = describe_all(p)
    if kind == 'value':
        check_result(got, new, name)
    else:
        require(isinstance(r, EXCEPTIONS[exception]), '%r', r)
        require(close(got, old) or close(got, new), '%s interrupted at %d: '
                '%s', name, where, got)
    return n >= where, n


########################################

CORE = ('std', 'derivatives', 'repr', 'std t', 'std s', 'product',
        'deepcopy', 'pickle', 'covariance')


PARTS = 8


def tasks(tier):
    out = []
    for setup in SETUPS:
        for a in OPS:
            if tier == 'thorough' or setup == 'nested':
                out.append(['pairs', tier, ['numbers', setup], a, 1])
        for e in 'KM' if tier == 'thorough' or setup == 'nested' else 'K':
            for op in sorted(OPS)+sorted(BIG):
                if tier == 'quick' and setup == 'sums' and op not in (
                        'std', 'std s', 'product', 'deepcopy'):
                    continue
                out.append(['interruptions', tier, ['numbers', setup], 1, e,
                            op])
    for f in FUNCTIONS:
        out.append(['calls', tier, ['function', f], 2 if tier == 'thorough'
                    else 1])
        for e in 'KM' if tier == 'thorough' else 'K':
            for op in calls_of(f):
                out.append(['interruptions', tier, ['function', f],
                            2 if tier == 'thorough' else 1, e, op])
    two_small = [(a, b) for a in CORE for b in CORE]
    if tier == 'quick':
        two_small = [(a, b) for a, b in two_small
                     if (a, b) == ('std', 'std')]
    out += [['two', tier, ['numbers', 'small'], [a, b], part]
            for a, b in two_small for part in range(PARTS)]
    calls2 = [('short', ('xy', 'yx')), ('infinite', ('xy', 'yx')),
              ('generator', ('xy', '1y')), ('var generator', ('xyz', '11z')),
              ('var', ('11z', 'xyz'))]
    if tier == 'quick':
        calls2 = []
    out += [['two', tier, ['function', f], list(ab), part]
            for f, ab in calls2 for part in range(PARTS)]
    out += [['three', tier, ['numbers', 'small'], list(abc)] for abc in
            itertools.product(('std', 'std s', 'product'), repeat=3)]
    if tier == 'thorough':
        out += [['two', tier, ['numbers', s], [a, b], part] for s in
                ('nested', 'sums') for a in ('std', 'std t', 'std s')
                for b in ('std', 'std t', 'product u')
                for part in range(PARTS)]
        out += [['three', tier, ['function', f], [c]*3] for f, c in (
            ('var generator', 'xyz'), ('infinite', 'xy'),
            ('var numerical', 'xyz'), ('keys', 'xyz'))]
        out += [['deep', tier, s, op] for s in SETUPS for op in
                ('std', 'repr', 'product', 'std t', 'deepcopy', 'pickle')]
    for setup in SETUPS if tier == 'thorough' else ('nested', 'small'):
        out.append(['assign', tier, ['numbers', setup]])
    out.append(['changes', tier])
    return out


def prepare():
    warnings.simplefilter('ignore')
    sched.points().add(generator.__code__)


def run_task(task, ctx):
    prepare()
    kind, tier = task[:2]
    if kind == 'pairs':
        _, _, spec, a, bound = task
        for b in OPS:
            if tier == 'quick' and not (
                    'std' in (a, b) or {a, b} <= {'std s', 'product',
                                                  'pickle', 'std t'}):
                continue
            explore(spec, [a, b], bound, ctx, 'threads', check_run)
        for b in BIG:
            if tier == 'thorough' or a == 'std':
                explore(spec, [a, b], 1, ctx, 'threads', check_run)
                if tier == 'thorough':
                    explore(spec, [b, a], 1, ctx, 'threads', check_run)
    elif kind == 'calls':
        _, _, spec, bound = task
        calls = sorted(calls_of(spec[1]))
        for a, b in itertools.product(calls, repeat=2):
            if tier == 'thorough' or a == calls[-1] or b == calls[-1]:
                explore(spec, [a, b], 1, ctx, 'threads', check_run)
    elif kind == 'two':
        _, _, spec, names, part = task
        explore(spec, names, 2, ctx, 'threads', check_run, part, PARTS)
    elif kind == 'three':
        _, _, spec, names = task
        explore(spec, names, 2 if tier == 'thorough' else 1, ctx, 'threads',
                check_run)
    elif kind == 'assign':
        _, _, spec = task
        for r in READS:
            for names in ([r, 'assign'], ['assign', r], [r, 'assign', r]):
                explore(spec, names, 1, ctx, 'assignment', check_assign)
    elif kind == 'interruptions':
        _, _, spec, depth, exception, op = task
        explore_interruptions(spec, op, depth, exception, ctx)
    elif kind == 'deep':
        _, _, setup, op = task
        explore_interruptions(['numbers', setup], op, 2, 'K', ctx)
    elif kind == 'changes':
        for name in CHANGES:
            for exception in EXCEPTIONS:
                k = 1
                while not ctx.full:
                    case = ['change', name, k, exception]
                    reached = False
                    with ctx.case(case):
                        reached, n = check_change(name, k, exception)
                        ctx.transitions += n
                    ctx.traces += 1
                    ctx.state(json.dumps(case))
                    ctx.outcome('interrupted change')
                    if not reached:
                        break
                    k += 1
    ctx.sample(task)


def replay(case, ctx):
    prepare()
    if case[0] == 'threads':
        check_run(case[1], case[2], case[3])
    elif case[0] == 'assignment':
        check_assign(case[1], case[2], case[3])
    elif case[0] == 'interrupted':
        check_interrupted(case[1], case[2], case[3], case[4])
    elif case[0] == 'change':
        check_change(case[1], case[2], case[3])
