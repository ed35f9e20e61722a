"""C04: copies have the documented independence.

All histories, up to a length, of calculations, shallow and deep copies
(alone or inside containers), reads and standard deviation assignments on a
growing pool of numbers, compared exactly with the model of mc/corr.py.
"""
import copy
import itertools

from uncertainties import ufloat, UFloat, umath

from mc import corr
from mc.num import same, INF, NAN
from mc.run import require

ID = 'C04'
LEVEL = 'model_checking'
RULE = ('a state is a distinct (variables with their values, all numbers with '
        'their derivatives) reached by the model; a transition is one event '
        '(build, copy, deep copy, read, assignment) executed on the '
        'implementation; a trace is one complete history after which every '
        'number, shared variable, covariance and equality was compared')
ASSUMPTIONS = ['longer histories behave like those inside the bound']


def enabled(w, hist, rich=True):
    n = len(w.impl)
    last = n-1
    for i in range(n):
        yield ('copy', i)
        yield ('deepcopy', i)
        if w.model[i].var is None:
            yield ('read', i)
            for tag in ('A', 'B'):
                if any(w.vars[k][2] == tag for k in w.model[i].d):
                    yield ('setinner', i, tag, 0.125)
        else:
            for s in (0.0, 2.0):
                yield ('set', i, s)
    for i, j in itertools.combinations_with_replacement(range(n), 2):
        yield ('add', i, j)
        if rich and i != j:
            yield ('mul', i, j)
            yield ('deeplist', [i, j])
    if rich:
        yield ('dbl', last)
        yield ('deeparray', [0, last])
        yield ('deepdict', [last, 0])


def firsts():
    w = corr.World()
    return list(enabled(w, []))


VALUES = [0.0, -0.0, 1.0, -2.5, 1e308, 5e-324, INF, -INF, NAN]
STDS = [0.0, 0.5, 1e-300, 1e300, INF, NAN]
TAGS = [None, '', 'tag', 3, ('t', 1)]
WAYS = {'copy': copy.copy, 'deepcopy': copy.deepcopy,
        'copy of copy': lambda x: copy.copy(copy.copy(x)),
        'deepcopy of deepcopy': lambda x: copy.deepcopy(copy.deepcopy(x)),
        'deepcopy of copy': lambda x: copy.deepcopy(copy.copy(x)),
        'copy of deepcopy': lambda x: copy.copy(copy.deepcopy(x)),
        'in a list': lambda x: copy.deepcopy([x])[0],
        'twice in a list': lambda x: copy.deepcopy([x, x])[1],
        'shallow list': lambda x: copy.copy([x])[0]}
# Calculated numbers whose derivatives have all kinds of values
BUILDS = {'+x': lambda x: +x, '-x': lambda x: -x, 'x*0': lambda x: x*0,
          'x-x': lambda x: x-x, 'x*2': lambda x: x*2,
          'x*1e300': lambda x: x*1e300,
          'abs': abs, 'x*x': lambda x: x*x, 'x**0': lambda x: x**0,
          'floor': lambda x: x//1 if abs(x.nominal_value) < INF else x*1,
          'sqrt': lambda x: umath.sqrt(x) if x.nominal_value >= 0 else x*1}


def check_special(case):
    """Copies of variables with special values, and of results from them."""
    v, s, t, way, build, read = case[1:]
    v, s = float(v), float(s)
    t = tuple(t) if isinstance(t, list) else t
    x = ufloat(v, s, tag=t)
    shallow = way in ('copy', 'copy of copy')
    if build is None:
        y = WAYS[way](x)
        if way == 'shallow list':
            require(y is x, 'the shallow copy of a list copies its contents')
            return 'same'
        require(y is not x and isinstance(y, UFloat), 'not a new number')
        require(same(y.nominal_value, v) and same(float(y.std_dev), s)
                and y.tag == t, 'copy is %r+/-%r tag %r', y.nominal_value,
                y.std_dev, y.tag)
        require(list(y.derivatives.items()) == [(y, 1.0)]
                if v == v else len(y.derivatives) == 1,
                'the copy depends on %r', y.derivatives)
        require(next(iter(y.derivatives)) is y, 'the copy depends on %r',
                y.derivatives)
        y.std_dev = 0.25
        require(same(float(x.std_dev), s), 'the original has changed')
        x.std_dev = 0.75
        require(y.std_dev == 0.25, 'the copy has changed')
        return 'variable'
    r = BUILDS[build](x)
    ref = BUILDS[build](x)
    if read:
        r.derivatives
    c = WAYS[way](r)
    if way == 'shallow list':
        require(c is r, 'the shallow copy of a list copies its contents')
        return 'same'
    require(c is not r, 'not a new number')
    for name, n in ('copy', c), ('original', r):
        require(same(n.nominal_value, ref.nominal_value) and
                same(float(n.std_dev), float(ref.std_dev)),
                '%s is %r+/-%r instead of %r+/-%r', name, n.nominal_value,
                n.std_dev, ref.nominal_value, ref.std_dev)
        ders = list(n.derivatives.items())
        require(len(ders) == 1 and same(ders[0][1], ref.derivatives[x]),
                '%s has derivatives %r', name, ders)
        w = ders[0][0]
        require(same(w.nominal_value, v) and same(float(w.std_dev), s)
                and w.tag == t, '%s depends on %r+/-%r tag %r', name,
                w.nominal_value, w.std_dev, w.tag)
        require((w is x) is (name == 'original' or shallow),
                '%s depends on the wrong variable', name)
    x.std_dev = 0.125
    changed = BUILDS[build](x)
    require(same(float(r.std_dev), float(changed.std_dev)),
            'the original does not follow its variable')
    require(same(float(c.std_dev),
                 float((changed if shallow else BUILDS[build](
                     ufloat(v, s))).std_dev)),
            'after a change of the variable, the copy has std_dev %r',
            c.std_dev)
    return 'shallow' if shallow else 'deep'


def run_special(part, ctx):
    for s, t, way, build, read in itertools.product(
            STDS, TAGS, WAYS, [None]+list(BUILDS), (False, True)):
        if build is None and read:
            continue
        case = ['special', part, s, t, way, build, read]
        with ctx.case(case):
            ctx.outcome('special '+check_special(case))
        ctx.state((part, s, t, way, build, read))
        ctx.traces += 1
        ctx.transitions += 3
    ctx.sample(['special', part])


def check_many(case):
    """Copies of a result that depends on many variables."""
    n, way, build, read, changed = case[1:]
    v = [ufloat(i % 3, 0.25*(i % 4), tag=('t%d' % i if i % 2 else None))
         for i in range(n)]
    if build == 'sum':
        r = sum((i % 5-2)*x for i, x in enumerate(v))
    else:
        r = v[0]*1
        for i, x in enumerate(v[1:], 1):
            r = x*(i % 5-2)-r
    ref = dict(r.derivatives) if read else None
    c = WAYS[way](r)
    if way == 'shallow list':
        require(c is r, 'the shallow copy of a list copies its contents')
        return 'same'
    shallow = way in ('copy', 'copy of copy')
    v[changed].std_dev = 8
    if ref is None:
        ref = dict(r.derivatives)
    require(dict(r.derivatives) == ref and set(ref) == set(v),
            'the original has changed')
    require(c.nominal_value == r.nominal_value, 'nominal value %r',
            c.nominal_value)
    require(len(c.derivatives) == n, '%d derivatives', len(c.derivatives))
    if shallow:
        require(dict(c.derivatives) == ref, 'derivatives')
        require(c.std_dev == r.std_dev, 'std_dev %r', c.std_dev)
        return 'shallow'
    require(not set(c.derivatives) & set(v), 'shared variable')

    def contents(derivatives):
        return sorted((d, w.nominal_value,
                       0.25*(changed % 4) if w is v[changed] else w.std_dev,
                       w.tag or '')
                      for w, d in derivatives.items())
    require(contents(c.derivatives) == contents(ref), 'contents of the copy')
    before = float(r.std_dev)
    for w in c.derivatives:
        w.std_dev = 3
    require(float(r.std_dev) == before, 'the original follows its copy')
    s = sum(d*d for d in ref.values())*9
    require(abs(c.std_dev**2-s) <= 1e-12*s, 'std_dev %r', c.std_dev)
    return 'deep'


def run_many(task, ctx):
    n = task[1]
    for way, build, read, changed in itertools.product(
            WAYS, ('sum', 'nested'), (False, True), range(0, n, max(1, n//6))):
        case = ['many', n, way, build, read, changed]
        with ctx.case(case):
            ctx.outcome('many '+check_many(case))
        ctx.state(tuple(case))
        ctx.traces += 1
        ctx.transitions += 4
    ctx.sample(case)


def tasks(tier):
    out = [['special', v] for v in VALUES]
    out += [['many', n] for n in (2, 7, 12, 17, 33, 65, 130)]
    for f in firsts():
        out.append([f, 3, True])
        w = corr.World()
        w.apply(f)
        for g in enabled(w, [f], tier == 'thorough'):
            out.append([f, 4, tier == 'thorough', g])
    return out


def run_task(task, ctx):
    if task[0] == 'special':
        return run_special(task[1], ctx)
    if task[0] == 'many':
        return run_many(task, ctx)
    f, depth, rich = task[:3]
    f = tuple(f)
    if len(task) == 3:
        corr.explore(f, depth, lambda w, h: enabled(w, h, rich), ctx, 'hist')
    else:
        g = tuple(task[3])

        def en(w, h):
            return [g] if len(h) == 1 else enabled(w, h, rich)
        corr.explore(f, depth, en, ctx, 'hist')


def replay(case, ctx):
    if case[0] == 'special':
        return check_special(case)
    if case[0] == 'many':
        return check_many(case)
    w = corr.World()
    for ev in case[1]:
        w.apply(tuple(ev))
    w.verify()
