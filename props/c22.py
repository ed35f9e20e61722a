"""C22: uncertainties are obtained in a time proportional to the calculation.

All recurrences of a grammar (two registers, repeated bodies of one to three
assignments, where intermediate results are used any number of times) are run
with the real package for several numbers of iterations; the work is the number
of lines of the package executed, which is deterministic. Its growth must not
exceed that of the calculation itself. The final numbers are compared with the
same recurrence on dual numbers, so that the work is that of the right result.
"""
import copy
import itertools
import math
import os
import pickle
import sys

from uncertainties import ufloat, umath, wrap, covariance_matrix, UFloat
import uncertainties

from mc.run import require

ID = 'C22'
LEVEL = 'model_checking'
RULE = ('a state is a distinct (recurrence, initial numbers, number of '
        'iterations); a transition is one operation executed on the '
        'implementation; a trace is one recurrence whose work, for all '
        'numbers of iterations, grows at most like the calculation')
ASSUMPTIONS = ['the number of lines executed in the package represents the '
               'work (built-in functions called by one line work on lists '
               'that the package builds itself)']

PACKAGE = os.path.dirname(os.path.abspath(uncertainties.__file__))+os.sep
NS = (6, 12, 24, 48)
# Numbers of steps multiplied by 2: the work may not be multiplied by more
# than this number (3: neither linear nor anything up to n^1.5)
FACTOR = 3
MARGIN = 2000
ABORT = 2000000


class TooLong(BaseException):
    pass


class Work(object):
    """Counts the lines executed in the package."""

    def __init__(self, limit):
        self.count = 0
        self.limit = limit

    def __enter__(self):
        files = {}

        def local(frame, event, arg):
            self.count += 1
            if self.count > self.limit:
                sys.settrace(None)
                raise TooLong()
            return local

        def trace(frame, event, arg):
            name = frame.f_code.co_filename
            if name not in files:
                files[name] = os.path.abspath(name).startswith(PACKAGE)
            return local if files[name] else None
        sys.settrace(trace)
        return self

    def __exit__(self, *exc):
        sys.settrace(None)


def mean(p, q):
    return 0.5*p+0.5*q


wrapped = wrap(lambda p, q: 0.5*p-0.25*q, [lambda p, q: 0.5,
                                           lambda p, q: -0.25])


class Dual(object):
    """Value and derivatives, calculated immediately (forward mode)."""

    def __init__(self, v, d=()):
        self.v, self.d = v, dict(d)

    @staticmethod
    def linear(v, *terms):
        d = {}
        for c, x in terms:
            for k, t in x.d.items():
                d[k] = d.get(k, 0)+c*t
        return Dual(v, d)


def num(x):
    return x if isinstance(x, Dual) else Dual(x)


# name: (number of arguments, on the package, on dual numbers)
OPS = {
    'add': (2, lambda p, q: p+q,
            lambda p, q: Dual.linear(p.v+q.v, (1, p), (1, q))),
    'sub': (2, lambda p, q: p-q,
            lambda p, q: Dual.linear(p.v-q.v, (1, p), (-1, q))),
    'mul': (2, lambda p, q: p*q,
            lambda p, q: Dual.linear(p.v*q.v, (q.v, p), (p.v, q))),
    'mean': (2, mean, lambda p, q: Dual.linear(
        0.5*p.v+0.5*q.v, (0.5, p), (0.5, q))),
    'wrapped': (2, wrapped, lambda p, q: Dual.linear(
        0.5*p.v-0.25*q.v, (0.5, p), (-0.25, q))),
    'hypot': (2, lambda p, q: umath.hypot(p+1, q+1), lambda p, q: Dual.linear(
        math.hypot(p.v+1, q.v+1), ((p.v+1)/math.hypot(p.v+1, q.v+1), p),
        ((q.v+1)/math.hypot(p.v+1, q.v+1), q))),
    'newton': (2, lambda p, q: 0.5*(p+2/(q*q+1)), lambda p, q: Dual.linear(
        0.5*(p.v+2/(q.v*q.v+1)), (0.5, p), (-2*q.v/(q.v*q.v+1)**2, q))),
    'sin': (1, lambda p: umath.sin(p), lambda p: Dual.linear(
        math.sin(p.v), (math.cos(p.v), p))),
    'half': (1, lambda p: p/2-1, lambda p: Dual.linear(p.v/2-1, (0.5, p))),
    'neg': (1, lambda p: 1-p, lambda p: Dual.linear(1-p.v, (-1, p))),
    'square': (1, lambda p: p*p-p, lambda p: Dual.linear(
        p.v*p.v-p.v, (2*p.v-1, p))),
    'copy': (1, lambda p: copy.copy(p) if isinstance(p, UFloat) else p, None),
    'read': (1, lambda p: (p.std_dev if isinstance(p, UFloat) else 0, p)[1],
             None),
}


def assignments():
    """(destination, operation, sources)."""
    out = []
    for name, (n, _, _) in OPS.items():
        for dest in (0, 1):
            for src in itertools.product((0, 1), repeat=n):
                if name in ('copy', 'read') and src[0] != dest:
                    continue
                out.append((dest, name)+src)
    return out


STARTS = ['two', 'same', 'plain', 'result', 'many']


def start(kind, made):
    x = ufloat(0.75, 0.125)
    y = ufloat(0.5, 0.25)
    made += [x, y]
    if kind == 'two':
        return [x, y], [Dual(0.75, {0: 1}), Dual(0.5, {1: 1})]
    if kind == 'same':
        return [x, x], [Dual(0.75, {0: 1})]*2
    if kind == 'plain':
        return [x, 0.5], [Dual(0.75, {0: 1}), Dual(0.5)]
    if kind == 'result':
        return [x+y, x*y], [Dual(1.25, {0: 1, 1: 1}),
                            Dual(0.375, {0: 0.5, 1: 0.75})]
    if kind == 'many':
        more = [ufloat(0.125, 0.25) for _ in range(8)]
        made += more
        return [sum(more), y], [Dual(1.0, {2+i: 1 for i in range(8)}),
                                Dual(0.5, {1: 1})]


FINAL = {
    'std_dev': lambda a, b: [v.std_dev for v in (a, b)
                             if isinstance(v, UFloat)],
    'derivatives': lambda a, b: [v.derivatives for v in (b, a)
                                 if isinstance(v, UFloat)],
    'components': lambda a, b: [v.error_components() for v in (a, b)
                                if isinstance(v, UFloat)],
    'covariance': lambda a, b: covariance_matrix([
        v for v in (a, b) if isinstance(v, UFloat)]),
    'equality': lambda a, b: a == b,
    'deepcopy': lambda a, b: copy.deepcopy([a, b]),
    'pickle': lambda a, b: pickle.loads(pickle.dumps([a, b], 2)),
    'format': lambda a, b: ['{:.2f}'.format(v) for v in (a, b)],
    'truth': lambda a, b: bool(a-b),
    'sum': lambda a, b: getattr(sum([a, b]*3)*1, 'std_dev', 0),
}


def close(x, y, scale):
    return x == y or (x != x and y != y) or abs(x-y) <= 1e-9*max(
        scale, abs(y), 1e-3) or not abs(y) < 1e290


def run(body, kind, n, final, limit):
    """Work of the calculation, and the numbers obtained."""
    made = []
    regs, ref = start(kind, made)
    with Work(limit) as work:
        for _ in range(n):
            for a in body:
                regs[a[0]] = OPS[a[1]][1](*[regs[i] for i in a[2:]])
        FINAL[final](*regs)
    return work.count, regs, ref, made


def check_recurrence(case):
    _, body, kind, final = case
    body = [tuple(a) for a in body]
    counts = []
    try:
        for n in NS:
            limit = ABORT if not counts else FACTOR*counts[-1]+MARGIN
            count, regs, ref, made = run(body, kind, n, final, limit)
            counts.append(count)
    except TooLong:
        require(False, 'more than %d lines of the package for %d iterations, '
                'after %r for %r', limit, n, counts, NS)
    except OverflowError:
        return 'overflow'
    # The right result, for the first number of iterations
    n = NS[0]
    _, regs, ref, made = run(body, kind, n, final, ABORT)
    size = {}
    ref = list(ref)
    magnitude = 1
    for _ in range(n):
        for a in body:
            f = OPS[a[1]][2]
            if f is not None:
                ref[a[0]] = f(*[num(ref[i]) for i in a[2:]])
            magnitude = max(magnitude, *[abs(t) for r in ref for t in
                                         list(r.d.values())+[r.v]])
    if not magnitude < 1e6 or 'copy' in [a[1] for a in body]:
        return 'cost only'
    for got, want in zip(regs, ref):
        v = got.nominal_value if isinstance(got, UFloat) else got
        require(close(v, want.v, magnitude), 'value %r instead of %r', v,
                want.v)
        if not isinstance(got, UFloat):
            require(not any(want.d.values()), 'uncertainty lost')
            continue
        for i, var in enumerate(made):
            d = got.derivatives.get(var, 0)
            require(close(d, want.d.get(i, 0), magnitude),
                    'derivative %r instead of %r', d, want.d.get(i, 0))
    return 'cost and result'


def tasks(tier):
    out = []
    for a in assignments():
        for kind in STARTS:
            out.append(['recurrence', tier, list(a), kind])
    return out


def run_task(task, ctx):
    _, tier, first, kind = task
    cases = [['recurrence', [first], kind, final] for final in FINAL]
    second = assignments()
    if tier == 'quick':
        if kind in ('two', 'many'):
            cases += [['recurrence', [first, list(b)], kind, 'std_dev']
                      for b in second]
    else:
        cases += [['recurrence', [first, list(b)], kind, final]
                  for b in second for final in FINAL]
        if kind == 'two':
            cases += [['recurrence', [first, list(b), list(c)], kind,
                       'std_dev'] for b in second for c in second
                      if c[1] in ('add', 'mul', 'mean', 'read')]
    for case in cases:
        with ctx.case(case):
            ctx.outcome(check_recurrence(case))
        for n in NS:
            ctx.state((repr(case), n))
        ctx.traces += 1
        ctx.transitions += sum(NS)*len(case[1])
        if ctx.full:
            return
    ctx.sample(cases[-1])


def replay(case, ctx):
    check_recurrence(case)
