"""C05: pickling preserves values, tags and mutual correlations.

- hist: all histories (calculations, copies, reads, assignments), with one or
  two pickle round trips of every subset of the numbers, in every container
  shape, protocol and pickler implementation, followed by further events on
  both sides; exact comparison with the model of mc/corr.py.
- class: all the subclasses of mc/classes.py with every combination of set and
  unset attributes, including attributes that refer to other numbers.
- values: special values, deviations and tags.
- long: long calculations of several shapes, read before or not.
- process: unpickling by another interpreter.
"""
import io
import itertools
import json
import pickle
import subprocess
import sys

import numpy

from uncertainties import ufloat, UFloat, umath, unumpy, covariance_matrix

from mc import corr, classes, env
from mc.num import same, INF, NAN
from mc.run import require

ID = 'C05'
LEVEL = 'model_checking'
RULE = ('a state is a distinct (variables with their values, all numbers with '
        'their derivatives) of the model, or a distinct case of the class, '
        'value and length tables; a transition is one event executed on the '
        'implementation; a trace is one complete history after which every '
        'number, shared variable, covariance and equality was compared')
ASSUMPTIONS = ['longer histories behave like those inside the bound',
               'the pure Python and C implementations of pickle are correct']

PROTOCOLS = list(range(pickle.HIGHEST_PROTOCOL+1))
HOWS = ['c', 'py', 'mixed']
SHAPES = ['list', 'tuple', 'dict', 'twice', 'array', 'reversed']
FORMATS = [(p, h) for p in PROTOCOLS for h in HOWS]


def basic(w, rich=False):
    """Events before or after the pickling."""
    n = len(w.impl)
    for i in range(n):
        if w.model[i].var is None:
            yield ('read', i)
            if rich:
                yield ('copy', i)
                yield ('deepcopy', i)
            for tag in ('A', 'B'):
                if any(w.vars[k][2] == tag for k in w.model[i].d):
                    yield ('setinner', i, tag, 0.125)
        else:
            yield ('set', i, 2.0)
            if rich:
                yield ('set', i, 0.0)
                yield ('copy', i)
    for i, j in itertools.combinations_with_replacement(range(n), 2):
        yield ('add', i, j)
        if rich and i != j:
            yield ('mul', i, j)


def subsets(n, largest):
    for k in range(1, largest+1):
        for c in itertools.combinations(range(n), k):
            yield list(c)


def pickles(n, tier, which):
    """Pickle events on a pool of n numbers."""
    if which == 'formats':      # every format, simple shapes
        for idx in subsets(n, 3):
            shapes = ['single', 'list', 'reversed'] if len(idx) == 1 else [
                'list', 'reversed']
            for (p, h), s in itertools.product(FORMATS, shapes):
                yield ('pickle', idx, p, h, s)
    elif which == 'shapes':     # every shape, few formats
        for idx in subsets(n, 3):
            for (p, h), s in itertools.product(
                    [(0, 'py'), (2, 'c'), (5, 'c')], SHAPES):
                yield ('pickle', idx, p, h, s)
    elif which == 'few':
        for idx in subsets(n, 2):
            for p, h, s in [(0, 'c', 'list'), (4, 'py', 'reversed')]:
                yield ('pickle', idx, p, h, s)


def world(hist):
    w = corr.World()
    for ev in hist:
        w.apply(ev)
    return w


def prefixes(tier):
    """All event sequences of length <= 2, all calculations of length 3."""
    out = [[]]
    for e in basic(corr.World(), True):
        out.append([e])
        for f in basic(world([e]), True):
            out.append([e, f])
            if tier == 'thorough':
                for g in basic(world([e, f])):
                    out.append([e, f, g])
    return out


def run_hist(task, ctx):
    _, tier, prefix = task
    prefix = [tuple(e) for e in prefix]
    n = len(world(prefix).impl)

    def finish(hist):
        case = ['hist', [list(e) for e in hist]]
        with ctx.case(case):
            w = world(hist)
            w.verify()
            ctx.state(w.key())
            for e in hist:
                if e[0] == 'pickle':
                    ctx.outcome('pickle %d' % e[2])
        ctx.traces += 1
        ctx.transitions += len(hist)

    if len(prefix) <= 1 or tier == 'thorough':
        for e in pickles(n, tier, 'formats'):
            finish(prefix+[e])
            if ctx.full:
                return
        for e in pickles(n, tier, 'shapes'):
            finish(prefix+[e])
    if len(prefix) <= 2:
        for e in pickles(n, tier, 'few'):
            if ctx.full:
                return
            hist = prefix+[e]
            finish(hist)
            try:
                w = world(hist)
            except Exception:
                continue    # (already reported)
            for f in basic(w):
                finish(hist+[f])
                if tier == 'thorough' and len(prefix) <= 1:
                    for g in basic(world(hist+[f])):
                        finish(hist+[f, g])
            # Twice, and the pickle of a pickle
            if len(prefix) <= 1:
                for f in pickles(len(w.impl), tier, 'few'):
                    finish(hist+[f])
    ctx.sample(['hist', prefix])


########################################

ATTR_VALUES = ['unset', 'number', 'none', 'self', 'var', 'result', 'list']


def check_class(case):
    name, combo, (proto, how), shape = case[1:]
    cls = getattr(classes, name)
    attrs = classes.ATTRS[cls]
    y = ufloat(-2, 0.25, tag='y')
    x = cls(1.5, 0.5, tag='x')
    values = dict(number=3, none=None, self=x, var=y, result=x*y,
                  list=[x, (y, {'k': 2*x})])
    for a, v in zip(attrs, combo):
        if v != 'unset':
            setattr(x, a, values[v])
    r = x+y
    got = corr.roundtrip([x, r, y], proto, how, shape)
    for x1, r1, y1, original in [(x, r, y, True)] + [tuple(got)+(False,)]:
        where = 'original' if original else 'unpickled'
        require(type(x1) is cls, '%s: type %s', where, type(x1).__name__)
        require(x1.nominal_value == 1.5 and x1.std_dev == 0.5,
                '%s: %r+/-%r', where, x1.nominal_value, x1.std_dev)
        ders = sorted((v.tag, v.nominal_value, float(v.std_dev), d)
                      for v, d in x1.derivatives.items())
        require(ders == [('x', 1.5, 0.5, 1.0)], '%s: depends on %r', where,
                ders)
        require(covariance_matrix([x1, r1, y1]) == [
            [.25, .25, 0], [.25, .3125, .0625], [0, .0625, .0625]],
            '%s: covariance matrix %r', where, covariance_matrix([x1, r1, y1]))
        require((x1 is x) is original, 'identity')
        require(r1 == x1+y1 and (r1 == r) is original,
                '%s: correlations are lost', where)
        for a, v in zip(attrs, combo):
            if v == 'unset':
                require(not hasattr(x1, a), '%s: has %s', where, a)
                continue
            t = getattr(x1, a)
            if v in ('number', 'none'):
                require(t == values[v], '%s: %s is %r', where, a, t)
            elif v == 'self':
                require(t is x1, '%s: %s is not itself', where, a)
            elif v == 'var':
                require(t is y1, '%s: %s is not the variable', where, a)
            elif v == 'result':
                require(t == x1*y1 and t.derivatives == (x1*y1).derivatives,
                        '%s: %s is %r', where, a, t)
            elif v == 'list':
                require(t[0] is x1 and t[1][0] is y1 and t[1][1]['k'] == 2*x1,
                        '%s: %s is %r', where, a, t)
        if hasattr(x, '__dict__'):
            require(set(x1.__dict__) == set(x.__dict__), '%s: __dict__ is %r',
                    where, x1.__dict__)
    return 'class '+name


def check_shadow(case):
    """Entries of __dict__ that are shadowed by slots are kept."""
    name, (proto, how) = case[1:]
    x = getattr(classes, name)(1.5, 0.5)
    slot = {'SlotsThenDict': 'attr', 'DictSlot': 'attr',
            'DictThenSlots': 'slot', 'Dict': '_std_dev'}[name]
    for used in (False, True):
        x.__dict__[slot] = 'shadowed'
        if used and slot != '_std_dev':
            setattr(x, slot, 'visible')
        y, = corr.roundtrip([x], proto, how, 'single')
        for z, where in ((x, 'original'), (y, 'unpickled')):
            require(z.__dict__[slot] == 'shadowed', '%s: __dict__ is %r',
                    where, z.__dict__)
            require(z.std_dev == 0.5 and z.nominal_value == 1.5,
                    '%s: %r+/-%r', where, z.nominal_value, z.std_dev)
            if slot != '_std_dev':
                if used:
                    require(getattr(z, slot) == 'visible', '%s: slot', where)
                else:
                    require(not hasattr(z, slot), '%s: slot is set', where)
    return 'shadowed'


def run_class(task, ctx):
    _, tier, name = task
    attrs = classes.ATTRS[getattr(classes, name)]
    for combo in itertools.product(ATTR_VALUES, repeat=len(attrs)):
        for fmt, shape in itertools.product(
                FORMATS, ['list', 'reversed', 'dict', 'twice']):
            case = ['class', name, list(combo), list(fmt), shape]
            with ctx.case(case):
                ctx.outcome(check_class(case))
            ctx.state(corr_key(case))
            ctx.traces += 1
            ctx.transitions += 2
    if name in ('SlotsThenDict', 'DictSlot', 'DictThenSlots', 'Dict'):
        for fmt in FORMATS:
            case = ['shadow', name, list(fmt)]
            with ctx.case(case):
                ctx.outcome(check_shadow(case))
            ctx.traces += 1
            ctx.transitions += 4
    ctx.sample(['class', name])


def corr_key(case):
    return json.dumps(case)


########################################

VALUES = [0.0, -0.0, 1.0, 1e308, 5e-324, 'inf', '-inf', 'nan', 0.1]
STDS = [0.0, 0.1, 1e-300, 1e300, 'inf', 'nan']
TAGS = [None, '', 'tag', u'\u00b5', 3, ['t', 1]]
BUILDS = {'x': lambda x: x, '+x': lambda x: +x, '-x': lambda x: -x,
          'x*0': lambda x: x*0,
          'x-x': lambda x: x-x, 'x*0.1': lambda x: x*0.1,
          'x*1e300': lambda x: x*1e300, 'abs': abs, 'x*x': lambda x: x*x,
          'x**0': lambda x: x**0,
          'sqrt': lambda x: umath.sqrt(x) if x.nominal_value >= 0 else x*1}


def check_value(case):
    v, s, t, build, read, (proto, how), shape = case[1:]
    v, s = float(v), float(s)
    t = tuple(t) if isinstance(t, list) else t
    x = ufloat(v, s, tag=t)
    r = BUILDS[build](x)
    ref = BUILDS[build](ufloat(v, s, tag=t))
    if read:
        r.std_dev
    if shape == 'set':
        if r is x:
            return 'skipped'
        # (Only variables can be hashed)
        d, z = pickle.loads(pickle.dumps([{x: [r]}, set([x])], proto))
        (y, (q,)), = d.items()
        require(d[y][0] is q, 'dictionary keys are lost')
        require(list(z)[0] is y and y in z, 'set is %r', z)
    elif shape == 'matrix':
        m = pickle.loads(pickle.dumps(unumpy.matrix([[r, x]]), proto))
        require(isinstance(m, unumpy.matrix) and m.shape == (1, 2),
                'type %s shape %s', type(m), m.shape)
        q, y = m[0, 0], m[0, 1]
    elif shape == 'single':
        q, = corr.roundtrip([r], proto, how, 'single')
        y = next(iter(q.derivatives))
    else:
        y, q = corr.roundtrip([x, r], proto, how, shape)
    for a, b, rr, where in ((y, q, ref, 'unpickled'), (x, r, ref, 'original')):
        require(same(a.nominal_value, v) and same(float(a.std_dev), s) and
                a.tag == t and type(a.tag) is type(t),
                '%s: %r+/-%r tag %r', where, a.nominal_value, a.std_dev,
                getattr(a, 'tag', 'none'))
        require(same(b.nominal_value, rr.nominal_value)
                and same(float(b.std_dev), float(rr.std_dev)),
                '%s: %r+/-%r instead of %r+/-%r', where, b.nominal_value,
                b.std_dev, rr.nominal_value, rr.std_dev)
        require(list(b.derivatives) == [a] or (
            len(b.derivatives) == 1 and next(iter(b.derivatives)) is a),
            '%s: depends on the wrong variable', where)
        require(same(next(iter(b.derivatives.values())),
                     next(iter(rr.derivatives.values()))),
                '%s: derivative', where)
    require(x is not y and r is not q, 'same object')
    y.std_dev = 0.125
    require(same(float(x.std_dev), s), 'the original has changed')
    require(same(float(r.std_dev), float(ref.std_dev)),
            'the original result has changed')
    x.std_dev = 0.0
    require(y.std_dev == 0.125, 'the copy has changed')
    return 'values, shape '+shape


def run_value(task, ctx):
    _, tier, v = task
    formats = FORMATS if tier == 'thorough' else [
        (p, h) for p, h in FORMATS if h == 'c'] + [(0, 'py'), (5, 'py')]
    for s, t, build, read, fmt, shape in itertools.product(
            STDS, TAGS, BUILDS, (False, True), formats,
            ['list', 'reversed', 'set', 'matrix', 'single']):
        if read and build == 'x' or (shape in ('set', 'matrix')
                                     and fmt[1] != 'c'):
            continue
        case = ['value', v, s, t, build, read, list(fmt), shape]
        with ctx.case(case):
            ctx.outcome(check_value(case))
        ctx.state(corr_key(case))
        ctx.traces += 1
        ctx.transitions += 3
    ctx.sample(['value', v])


########################################

def long_shapes(n):
    """{shape: (numbers to be pickled, {tag: derivative of the last one})}"""
    x, y = ufloat(1.0, 0.5, 'x'), ufloat(2.0, 0.25, 'y')

    def right():
        t = y
        for _ in range(n):
            t = t+x
        return [x, y, t], {'x': n, 'y': 1}

    def left():
        t = y
        for _ in range(n):
            t = x+t
        return [x, y, t], {'x': n, 'y': 1}

    def unary():
        t = x+y
        for _ in range(n):
            t = -t
        return [x, y, t], {'x': (-1)**n, 'y': (-1)**n}

    def product():
        t = y
        for _ in range(n):
            t = t*x
        return [x, y, t], {'x': 2*n, 'y': 1}

    def inplace():
        t = ufloat(0, 0, 'z')
        for _ in range(n):
            t += x
            t -= y
        return [x, y, t], {'x': n, 'y': -n, 'z': 1}

    def partial():
        t = y
        out = []
        for _ in range(n):
            t = t+x
            out.append(t)
        return [x, y]+out, {'x': n, 'y': 1}

    def total():
        return [x, y, sum([x]*n+[y])], {'x': n, 'y': 1}

    def many():
        t = x*0+y
        for i in range(n):
            t = t+ufloat(1, 0.5, tag=i)
        d = {i: 1 for i in range(n)}
        d.update(x=0, y=1)
        return [x, y, t], d
    return {f.__name__: f for f in (right, left, unary, product, inplace,
                                    partial, total, many)}


def check_long(case):
    shape, n, read, (proto, how), single = case[1:]
    nums, ders = long_shapes(n)[shape]()
    last = nums[-1]
    if read:
        last.derivatives
        nums[len(nums)//2].std_dev
    if single:
        q, = corr.roundtrip([last], proto, how, 'single')
        by_tag = {v.tag: v for v in q.derivatives}
        x, y = by_tag['x'], by_tag['y']
        got = [x, y, q]
    else:
        got = corr.roundtrip(nums, proto, how, 'list')
        x, y, q = got[0], got[1], got[-1]
    for where, number, xx, yy in (('unpickled', q, x, y),
                                  ('original', last, nums[0], nums[1])):
        require({v.tag: d for v, d in number.derivatives.items()} == ders,
                '%s: derivatives %r instead of %r', where,
                list(number.derivatives.items())[:3], list(ders.items())[:3])
        require(number.derivatives[xx] == ders['x'] and
                number.derivatives[yy] == ders['y'], '%s: correlations', where)
        require(number.nominal_value == last.nominal_value, '%s: value', where)
    require(q.std_dev == last.std_dev, 'std_dev %r instead of %r', q.std_dev,
            last.std_dev)
    if not single and shape == 'partial':
        for i in range(2, len(got)):
            require(got[i].derivatives[x] == i-1
                    and len(got[i].derivatives) == 2, 'partial sum %d', i)
    if n <= 10000:
        difference = q-q
        require(difference.std_dev == 0, 'difference')
    return 'long '+shape


def run_long(task, ctx):
    _, tier, shape, n = task
    formats = FORMATS if n <= 1000 else [(0, 'c'), (2, 'c'), (5, 'c'),
                                         (4, 'py')]
    for read, fmt, single in itertools.product((False, True), formats,
                                               (False, True)):
        case = ['long', shape, n, read, list(fmt), single]
        with ctx.case(case):
            ctx.outcome(check_long(case))
        ctx.state(corr_key(case))
        ctx.traces += 1
        ctx.transitions += n
    ctx.sample(['long', shape, n])


########################################

LOADER = r'''
import sys, json, io, pickle
sys.dont_write_bytecode = True
sys.path[:0] = json.loads(sys.argv[1])
from uncertainties import covariance_matrix
out = []
f = io.BytesIO(sys.stdin.buffer.read())
while True:
    try:
        nums = pickle.load(f)
    except EOFError:
        break
    out.append([[[repr(n.nominal_value), repr(n.std_dev)] for n in nums],
                [[repr(float(c)) for c in line]
                 for line in covariance_matrix(nums)],
                [sorted([[repr(v.tag), repr(float(d)), repr(float(v.std_dev))]
                 for (v, d) in n.derivatives.items()]) for n in nums]])
print(json.dumps(out))
'''


def check_process(case):
    graphs = []
    for p in PROTOCOLS:
        for read in (False, True):
            x, y = ufloat(1, .1, 'x'), ufloat(-2, 0.25)
            z = x*y
            t = z/x
            if read:
                t.std_dev
            u = t
            for _ in range(3000):
                u = u+x
            graphs += [(p, [x, y, z, t]), (p, [u]), (p, [t, u, y])]
    data = b''.join(pickle.dumps(g, p) for p, g in graphs)
    path = [p for p in sys.path if p]
    r = subprocess.run([sys.executable, '-B', '-c', LOADER, json.dumps(path)],
                       input=data, stdout=subprocess.PIPE,
                       stderr=subprocess.PIPE)
    require(r.returncode == 0, 'unpickling in another process: %s',
            r.stderr.decode()[-500:])
    got = json.loads(r.stdout.decode().strip().split('\n')[-1])
    require(len(got) == len(graphs), 'graphs are missing')
    for (p, nums), g in zip(graphs, got):
        ref = [[[repr(n.nominal_value), repr(n.std_dev)] for n in nums],
               [[repr(float(c)) for c in line]
                for line in covariance_matrix(nums)],
               [sorted([[repr(v.tag), repr(float(d)), repr(float(v.std_dev))]
                        for (v, d) in n.derivatives.items()]) for n in nums]]
        require(g == ref, 'protocol %d: %r instead of %r', p, g, ref)
    return 'other process'


def tasks(tier):
    out = [['hist', tier, p] for p in prefixes(tier)]
    out += [['class', tier, c.__name__] for c in classes.ATTRS]
    out += [['value', tier, v] for v in VALUES]
    sizes = [1, 2, 10, 300, 3000] + (
        [20000, 100000] if tier == 'thorough' else [20000])
    for shape in long_shapes(1):
        out += [['long', tier, shape, n] for n in sizes]
    out.append(['process'])
    return out


def run_task(task, ctx):
    if task[0] == 'hist':
        run_hist(task, ctx)
    elif task[0] == 'class':
        run_class(task, ctx)
    elif task[0] == 'value':
        run_value(task, ctx)
    elif task[0] == 'long':
        run_long(task, ctx)
    elif task[0] == 'process':
        with ctx.case(['process']):
            ctx.outcome(check_process(['process']))
        ctx.traces += 1
        ctx.transitions += 1


def replay(case, ctx):
    kind = case[0]
    if kind == 'hist':
        world([tuple(e) for e in case[1]]).verify()
    else:
        {'class': check_class, 'shadow': check_shadow, 'value': check_value,
         'long': check_long, 'process': check_process}[kind](case)
