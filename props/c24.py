"""C24: the sources of an uncertainty, by variable and by tag.

All the sequences, up to a depth, of calculations, assignments (standard
deviations and tags), copies, pickle round trips, and uses of variables as
keys of dictionaries and elements of sets, on the real objects.  The reference
is a list of records (exact rationals), where numbers are only identified by
their position.
"""
import copy
import itertools
import json
import pickle
from fractions import Fraction as F

from uncertainties import ufloat, UFloat, covariance_matrix
from uncertainties.core import Variable

from mc.run import require

ID = 'C24'
LEVEL = 'model_checking'
RULE = ('a state is a distinct sequence of events; a transition is one event; '
        'a trace is one sequence after which all the numbers, budgets, '
        'dictionaries and sets are compared with the model')
ASSUMPTIONS = ['longer sequences behave like the explored ones']

STDS = ['0.5', '0', '2']
TAGS = [None, 'a', '', ('t', 1)]
BUILDS = {
    # name: (function of the variables and of the last number, {variable:
    # derivative} and factor of the last number)
    'x+y': (lambda v, r: v[0]+v[1], {0: 1, 1: 1}, 0),
    '2x-z': (lambda v, r: 2*v[0]-v[2], {0: 2, 2: -1}, 0),
    'x-x': (lambda v, r: v[0]-v[0], {0: 0}, 0),
    'r-y': (lambda v, r: r-v[1], {1: -1}, 1),
    '-4r': (lambda v, r: -4*r, {}, -4),
}
START = [(1.0, 0.5, 'a'), (1.0, 0.5, 'a'), (1.0, 0.25, None)]
MISSING = object()


class World(object):

    def __init__(self):
        self.vars = [ufloat(v, s, tag=t) for v, s, t in START]
        self.results = []
        self.notes = {}  # Variables as keys
        self.seen = set()
        # Model
        self.m_vars = [[F(s), t] for _, s, t in START]
        self.m_results = []  # {variable: derivative}
        self.m_notes = {}
        self.m_seen = set()
        self.counter = 0

    def numbers(self):
        return ([(('v', i), x) for i, x in enumerate(self.vars)]
                + [(('r', i), x) for i, x in enumerate(self.results)])

    def last(self):
        if self.results:
            return self.results[-1], self.m_results[-1]
        return self.vars[0], {0: F(1)}

    def pick(self, which):
        return ('v', which), self.vars[which]

    def apply(self, ev):
        kind = ev[0]
        self.counter += 1
        if kind == 'build':
            f, ders, factor = BUILDS[ev[1]]
            r, m = self.last()
            self.results.append(f(self.vars, r))
            d = {k: F(x) for k, x in ders.items()}
            if factor:
                for k, x in m.items():
                    d[k] = d.get(k, F(0))+factor*x
            self.m_results.append(d)
        elif kind == 'std':
            self.vars[ev[1]].std_dev = float(ev[2])
            self.m_vars[ev[1]][0] = F(ev[2])
        elif kind == 'tag':
            self.vars[ev[1]].tag = TAGS[ev[2]]
            self.m_vars[ev[1]][1] = TAGS[ev[2]]
        elif kind == 'note':
            key, x = self.pick(ev[1])
            self.notes[x] = self.counter
            self.m_notes[key] = self.counter
            self.seen.add(x)
            self.m_seen.add(key)
        elif kind == 'forget':
            key, x = self.pick(ev[1])
            require((self.notes.pop(x, MISSING) is MISSING) ==
                    (self.m_notes.pop(key, MISSING) is MISSING),
                    'removal of %r', key)
            self.seen.discard(x)
            self.m_seen.discard(key)
        elif kind == 'copy':
            self.vars.append(copy.copy(self.vars[ev[1]]))
            self.m_vars.append(list(self.m_vars[ev[1]]))
        elif kind == 'pickle':
            (self.vars, self.results, self.notes, self.seen) = pickle.loads(
                pickle.dumps((self.vars, self.results, self.notes, self.seen),
                             ev[1]))
        elif kind == 'read':
            for _, x in self.numbers():
                x.error_components()
                x.std_dev
                repr(x)
        else:
            raise ValueError(ev)

    def verify(self):
        numbers = self.numbers()
        positions = {id(x): i for i, x in enumerate(self.vars)}
        # Variables as keys and elements
        require(len(self.notes) == len(self.m_notes), '%d keys instead of %d',
                len(self.notes), len(self.m_notes))
        require(len(self.seen) == len(self.m_seen), '%d elements instead of '
                '%d', len(self.seen), len(self.m_seen))
        for key, x in numbers[:len(self.vars)]:
            require(self.notes.get(x, MISSING) == self.m_notes.get(
                key, MISSING), 'dictionary at %r: %r instead of %r', key,
                self.notes.get(x), self.m_notes.get(key))
            require((x in self.seen) is (key in self.m_seen), 'set: %r', key)
        require(len(set(self.vars)) == len(self.vars),
                'distinct variables are the same key')
        # Sources
        for key, x in numbers:
            ders = ({key[1]: F(1)} if key[0] == 'v' else
                    self.m_results[key[1]])
            budget = x.error_components()
            require(isinstance(budget, dict), 'error_components(): %s',
                    type(budget))
            got = {}
            for v, e in budget.items():
                require(isinstance(v, Variable) and id(v) in positions,
                        '%r: unknown variable', key)
                got[positions[id(v)]] = F(float(e))
                require(v.tag == self.m_vars[positions[id(v)]][1] and
                        type(v.tag) is type(self.m_vars[positions[id(v)]][1]),
                        '%r: tag %r', key, v.tag)
                require(budget[self.vars[positions[id(v)]]] == e,
                        '%r: no component for the variable', key)
                require(x.derivatives[v] == ders.get(positions[id(v)], 0),
                        '%r: derivative', key)
            expected = {i: abs(d)*self.m_vars[i][0] for i, d in ders.items()}
            for i, d in ders.items():
                if not d:  # Whether the variable is listed does not matter
                    require(got.setdefault(i, F(0)) == 0, '%r: source', key)
            require(got == expected, '%r: sources %r instead of %r', key, got,
                    expected)
            total = sum(e*e for e in expected.values())
            require(abs(F(float(x.std_dev))**2-total) <= total*F(1, 10**14),
                    '%r: standard deviation %r', key, x.std_dev)
            # By tag (see the user guide)
            for tag in TAGS:
                part = sum(F(float(e))**2 for (v, e) in
                           x.error_components().items() if v.tag == tag)
                ref = sum(e*e for i, e in expected.items()
                          if self.m_vars[i][1] == tag)
                require(part == ref, '%r: contribution of tag %r', key, tag)
            # The budget belongs to the caller
            budget.clear()
        for i, x in enumerate(self.vars):
            require(isinstance(x, UFloat) and x.tag == self.m_vars[i][1] and
                    F(float(x.std_dev)) == self.m_vars[i][0], 'variable %d', i)


def enabled(w, rich):
    out = [('build', b) for b in BUILDS]
    n = len(w.vars)
    for i in range(n) if rich else sorted({0, 1, n-1}):
        for s in STDS if rich else STDS[:2]:
            out.append(('std', i, s))
        for t in range(len(TAGS)):
            if rich or t < 2:
                out.append(('tag', i, t))
        out.append(('note', i))
        out.append(('forget', i))
    if n < 5:
        out += [('copy', 0), ('copy', 2)]
    out += [('pickle', p) for p in ((0, 2, pickle.HIGHEST_PROTOCOL) if rich
                                    else (2,))]
    out.append(('read',))
    return out


def run_history(history, verify_all=False):
    w = World()
    for ev in history:
        w.apply(tuple(ev))
        if verify_all:
            w.verify()
    w.verify()
    return w


def explore(history, depth, rich, ctx):
    w = World()
    for ev in history:
        w.apply(ev)
    for ev in enabled(w, rich):
        if history and ev[0] == 'read' and history[-1][0] == 'read':
            continue
        h = history+[ev]
        # (All the histories are verified only at their end: reading is an
        # event like the others.)
        case = [list(e) for e in h]
        with ctx.case(case):
            run_history(h)
            ctx.outcome(ev[0])
        ctx.state(tuple(h))
        ctx.traces += 1
        ctx.transitions += 1
        if ctx.full:
            return
        if depth > 1:
            explore(h, depth-1, rich, ctx)
    ctx.sample([list(e) for e in history])


def check_many(case):
    """Many sources, with few tags."""
    n, tags, how = case[1:]
    v = [ufloat(i % 3, 0.25*(i % 4), tag=('t%d' % (i % tags) if i % tags
                                          else None)) for i in range(n)]
    coefs = [i % 5-2 for i in range(n)]
    if how == 'sum':
        r = sum(c*x for c, x in zip(coefs, v))
    else:
        r = 0
        for c, x in zip(coefs, v):
            r = c*x+r
            if how == 'read':
                r.error_components()
    for stage in range(3):
        budget = r.error_components()
        require(list(map(id, sorted(budget, key=id))) ==
                sorted(map(id, v)), 'not the sources')
        for t in range(tags):
            t = 't%d' % t if t else None
            part = sum(e**2 for (x, e) in budget.items() if x.tag == t)
            ref = sum((c*x.std_dev)**2 for c, x in zip(coefs, v)
                      if x.tag == t)
            require(part == ref, 'contribution of %r: %r instead of %r', t,
                    part, ref)
        index = {x: i for i, x in enumerate(v)}
        require([index[x] for x in v] == list(range(n)), 'dictionary')
        require(all(budget[x] == abs(c)*x.std_dev
                    for c, x in zip(coefs, v)), 'components')
        require(abs(covariance_matrix([r])[0][0]-sum(
            e**2 for e in budget.values())) < 1e-9, 'variance')
        if stage == 0:
            for x in v[::2]:
                x.std_dev = 1
        elif stage == 1:
            v, r = pickle.loads(pickle.dumps((v, r)))
    return 'many'


def run_many(task, ctx):
    case = None
    for n, tags, how in itertools.product(
            (1, 2, 3, 10, 17, 40, 130), (1, 2, 3, 8),
            ('sum', 'nested', 'read')):
        case = ['many', n, tags, how]
        with ctx.case(case):
            ctx.outcome(check_many(case))
        ctx.state(json.dumps(case))
        ctx.traces += 1
        ctx.transitions += 3
    ctx.sample(case)


def tasks(tier):
    out = [['many']]
    w = World()
    for rich, depth in ((True, 3), (False, 4)) if tier == 'quick' else (
            (True, 4), (False, 5)):
        for ev in enabled(w, rich):
            v = World()
            v.apply(ev)
            for ev2 in enabled(v, rich):
                out.append(['history', rich, depth-2,
                            [list(ev), list(ev2)]])
    out.append(['short'])
    return out


def run_task(task, ctx):
    if task[0] == 'many':
        return run_many(task, ctx)
    if task[0] == 'short':
        return explore([], 2, True, ctx)
    _, rich, depth, first = task
    explore([tuple(e) for e in first], depth, rich, ctx)


def replay(case, ctx):
    if case and case[0] == 'many':
        return check_many(case)
    run_history(case)
