"""C06: comparisons and truth value follow the documented order.

- program: all straight-line programs up to a depth on three variables; every
  ordered pair of the numbers so obtained (variables, results, copies) is
  compared with every operator, for every sequence of assignments of standard
  deviations, against exact rational arithmetic.
- first: the same with comparisons being the first evaluation of a number.
- plain: numbers compared with ordinary numbers of all types.
- grid: independent numbers of all magnitudes.
- other: other types of objects.
- sort: sorting and searching in all permutations of lists.
"""
import copy
import itertools
import json
import operator
import pickle
from decimal import Decimal
from fractions import Fraction as F

import numpy

from uncertainties import ufloat, umath

from mc.run import require

ID = 'C06'
LEVEL = 'model_checking'
RULE = ('a state is a distinct (pair of operands with exact values and '
        'derivatives, current standard deviations); a transition is one '
        'comparison or truth value evaluated on the implementation; a trace '
        'is one pair of operands for which all operators were compared with '
        'the model')
ASSUMPTIONS = ['operands outside the tables behave like those inside']

OPS = {'==': operator.eq, '!=': operator.ne, '<': operator.lt,
       '<=': operator.le, '>': operator.gt, '>=': operator.ge}

# Variables: a and b look equal, c is exact at first
START = [(F(1), F(1, 2)), (F(1), F(1, 2)), (F(2), F(0))]
STDS = [(F(1, 2), F(1, 2), F(0)), (F(0), F(0), F(0)), (F(0), F(1, 4), F(0)),
        (F(2), F(0), F(1, 8)), (F(1, 2), F(1, 2), F(1, 2))]


def expected(v, d, w, e, stds):
    """Results of all the operators for (v, d) and (w, e)."""
    eq = v == w and not any((d.get(k, 0)-e.get(k, 0))*stds[k]
                            for k in set(d) | set(e))
    return {'==': eq, '!=': not eq, '<': v < w, '>': v > w,
            '<=': v < w or eq, '>=': v > w or eq}


def truth(v, d, stds):
    return bool(v) or any(t*stds[k] for k, t in d.items())


def check_pair(x, y, ref, what):
    for name, op in OPS.items():
        got = op(x, y)
        require(got is ref[name] or (isinstance(got, numpy.bool_) and
                                     bool(got) is ref[name]),
                '%s: %s gives %r instead of %r', what, name, got, ref[name])


STEPS = ([('+', i, j) for i in range(3) for j in range(i+1)]
         + [('-', i, j) for i in range(3) for j in range(3)]
         + [('*', i, j) for i in range(3) for j in range(i)]
         + [(u, i) for u in ('neg', 'pos', 'add0', 'mul1', 'half', 'copy',
                             'deepcopy', 'pickle', 'sum0') for i in range(3)])


def is_variable(impl, i):
    return hasattr(impl[i], 'tag')


def step(op, impl, model, stds):
    """Append the result of op to the implementation and to the model."""
    kind, i = op[:2]
    x, (v, d) = impl[i], model[i]
    if len(op) == 3:
        y, (w, e) = impl[op[2]], model[op[2]]
        keys = set(d) | set(e)
        if kind == '+':
            r, z = x+y, v+w
            f = {k: d.get(k, 0)+e.get(k, 0) for k in keys}
        elif kind == '-':
            r, z = x-y, v-w
            f = {k: d.get(k, 0)-e.get(k, 0) for k in keys}
        else:
            r, z = x*y, v*w
            f = {k: d.get(k, 0)*w+e.get(k, 0)*v for k in keys}
    elif kind == 'neg':
        r, z, f = -x, -v, {k: -t for k, t in d.items()}
    elif kind == 'half':
        r, z, f = x/2, v/2, {k: t/2 for k, t in d.items()}
    elif kind in ('pos', 'add0', 'mul1', 'sum0'):
        r = {'pos': lambda: +x, 'add0': lambda: x+0, 'mul1': lambda: 1*x,
             'sum0': lambda: umath.fsum([x, 0])}[kind]()
        z, f = v, d
    elif kind == 'copy' and not is_variable(impl, i):
        r, z, f = copy.copy(x), v, d
    else:
        r = {'copy': copy.copy, 'deepcopy': copy.deepcopy,
             'pickle': lambda n: pickle.loads(pickle.dumps(n))}[kind](x)
        z, f = v, {}
        for k, t in d.items():
            stds.append(stds[k])
            f[len(stds)-1] = t
    impl.append(r)
    model.append((z, f))


def build(prog):
    stds = [s for v, s in START]
    impl = [ufloat(float(v), float(s)) for v, s in START]
    model = [(v, {k: F(1)}) for k, (v, s) in enumerate(START)]
    for op in prog:
        step(op, impl, model, stds)
    return impl, model, stds


def later_steps(n):
    """Operations on the last number (n of them are available)."""
    last = n-1
    out = [(o, i, j) for o in '+-' for i in range(n) for j in range(n)
           if last in (i, j)]
    out += [('*', last, j) for j in range(n)]
    out += [(u, last) for u in ('neg', 'pos', 'add0', 'mul1', 'half', 'copy',
                                'deepcopy', 'pickle', 'sum0')]
    return out


def check_program(case):
    prog, changes = case[1:]
    impl, model, stds = build([tuple(p) for p in prog])
    count = 0
    for change in [None]+changes:
        if change is not None:
            for k, s in enumerate(STDS[change]):
                impl[k].std_dev = float(s)
                stds[k] = s
        for i, (v, d) in enumerate(model):
            require(bool(impl[i]) is truth(v, d, stds),
                    'bool(number %d) is %r', i, bool(impl[i]))
            for j, (w, e) in enumerate(model):
                check_pair(impl[i], impl[j], expected(v, d, w, e, stds),
                           'numbers %d and %d' % (i, j))
                count += 1
    return count


def run_program(task, ctx):
    _, tier, first = task
    progs = [[first]]
    for second in later_steps(4):
        progs.append([first, second])
        if tier == 'thorough':
            for third in later_steps(5):
                progs.append([first, second, third])
    n = len(STDS)
    seqs = [[]]+[[i] for i in range(n)] + [
        [i, j] for i in range(n) for j in range(n) if i != j]
    for prog in progs:
        for seq in (seqs if len(prog) < 3 else [list(range(n))]):
            case = ['program', [list(p) for p in prog], seq]
            count = 0
            with ctx.case(case):
                count = check_program(case)
            ctx.traces += count
            ctx.transitions += count*6
            ctx.outcome('program')
            if ctx.full:
                return
        ctx.state(repr(prog))
    ctx.sample(case)


def check_first(case):
    """A comparison is the very first evaluation of both operands."""
    prog, i, j, name = case[1:]
    impl, model, stds = build([tuple(p) for p in prog])
    if name == 'bool':
        got, ref = bool(impl[i]), truth(model[i][0], model[i][1], stds)
    else:
        got = OPS[name](impl[i], impl[j])
        ref = expected(*(model[i]+model[j]+(stds,)))[name]
    require(got is ref, '%s of numbers %d and %d is %r', name, i, j, got)
    # Nothing has changed
    for k, (v, d) in enumerate(model):
        require(impl[k].nominal_value == v and
                abs(F(impl[k].std_dev)**2-sum(
                    (t*stds[m])**2 for m, t in d.items())) <= F(1, 10**12),
                'number %d was modified', k)


def run_first(task, ctx):
    _, tier, first = task
    for second in later_steps(4):
        prog = [first, second]
        for name in list(OPS)+['bool']:
            for i, j in itertools.product(range(5), repeat=2):
                if name == 'bool' and i != j:
                    continue
                case = ['first', prog, i, j, name]
                with ctx.case(case):
                    check_first(case)
                ctx.traces += 1
                ctx.transitions += 1
                ctx.outcome('first evaluation')
                ctx.state((tuple(first), tuple(second), i, j))
        if ctx.full:
            return


PLAIN = [('int', 1), ('int', 0), ('int', -2), ('float', 1.0), ('float', 0.0),
         ('float', -0.0), ('float', 1.0000000000000002), ('float', 2.0),
         ('float', -2.0), ('float', 1e308), ('float', 5e-324),
         ('bool', True), ('bool', False), ('Fraction', '1'),
         ('Fraction', '3/2'), ('Decimal', '1'), ('Decimal', '-2'),
         ('numpy.float64', 1.0), ('numpy.float32', 1.0), ('numpy.int64', 1),
         ('numpy.int8', -2), ('numpy.uint8', 2), ('numpy.bool_', True),
         ('inf', 'inf'), ('inf', '-inf'), ('nan', 'nan')]
TYPES = {'int': int, 'float': float, 'bool': bool, 'Fraction': F,
         'Decimal': Decimal, 'inf': float, 'nan': float,
         'numpy.float64': numpy.float64, 'numpy.float32': numpy.float32,
         'numpy.int64': numpy.int64, 'numpy.int8': numpy.int8,
         'numpy.uint8': numpy.uint8, 'numpy.bool_': numpy.bool_}
NUMBERS = {
    'variable': lambda v, s: ufloat(v, s),
    'result': lambda v, s: +ufloat(v, s),
    'no dependence': lambda v, s: ufloat(v, s)*0+v,
    'cancelled': lambda v, s: (lambda x, y: (y+x)-y)(ufloat(v, 0),
                                                    ufloat(0, s)),
    'difference': lambda v, s: (lambda x: x-x+v)(ufloat(3, s)),
}


def check_plain(case):
    kind, v, s, typ, p = case[1:]
    x = NUMBERS[kind](v, s)
    y = TYPES[typ](p)
    exact = kind not in ('variable', 'result') or s == 0
    w = float(y)
    if w != w:
        ref = dict.fromkeys(OPS, False)
        ref['!='] = True
    else:
        eq = v == w and exact
        ref = {'==': eq, '!=': not eq, '<': v < w, '>': v > w,
               '<=': v < w or eq, '>=': v > w or eq}
    check_pair(x, y, ref, 'number and %s' % typ)
    swap = {'<': '>', '>': '<', '<=': '>=', '>=': '<='}
    check_pair(y, x, {n: ref[swap.get(n, n)] for n in ref},
               '%s and number' % typ)
    require(bool(x) is (v != 0 or not exact), 'truth value')
    # Python containers
    require((y in [x]) is ref['=='] and [x].count(y) == ref['=='],
            'membership')


def run_plain(task, ctx):
    _, tier, kind = task
    for v, s, (typ, p) in itertools.product(
            [1.0, 0.0, -0.0, -2.0, 2.0, 1.5, 1e308, -1e308, 5e-324],
            [0.0, 0.5, 1e-300, 1e300, 5e-324], PLAIN):
        case = ['plain', kind, v, s, typ, p]
        with ctx.case(case):
            check_plain(case)
        ctx.state(json.dumps(case))
        ctx.traces += 1
        ctx.transitions += 14
        ctx.outcome('plain '+typ)
    ctx.sample(case)


GRID_V = [0.0, -0.0, 1.0, 1.0000000000000002, -1.0, 5e-324, -5e-324, 1e-310,
          1e-160, 1e-200, 1e200, 1e308, -1e308, 1.7976931348623157e308]
GRID_S = [0.0, 5e-324, 1e-310, 1e-200, 0.5, 1e200, 1.7976931348623157e308]


def check_grid(case):
    v, s, w, t = case[1:]
    for x, y in ((ufloat(v, s), ufloat(w, t)), (+ufloat(v, s), ufloat(w, t)),
                 (1*ufloat(v, s), +ufloat(w, t))):
        eq = v == w and s == 0 and t == 0
        ref = {'==': eq, '!=': not eq, '<': v < w, '>': v > w,
               '<=': v < w or eq, '>=': v > w or eq}
        check_pair(x, y, ref, 'independent numbers')
        # Same variable on both sides
        ref = {'==': True, '!=': False, '<': False, '>': False, '<=': True,
               '>=': True}
        for z in (x, +x, x+0, 1*x, x/1, copy.copy(+x), -(-x)):
            check_pair(x, z, ref, 'same number')


def run_grid(task, ctx):
    _, tier, v = task
    for s, w, t in itertools.product(GRID_S, GRID_V, GRID_S):
        case = ['grid', v, s, w, t]
        with ctx.case(case):
            check_grid(case)
        ctx.state(tuple(case))
        ctx.traces += 1
        ctx.transitions += 48
        ctx.outcome('grid')
    ctx.sample(case)


SPECIAL = ['0', '1', '-1', 'nan', 'inf', '-inf']
SPECIAL_S = ['0', '1', 'nan', 'inf']
SPECIAL_K = ['independent', 'same', '+x', 'x+0', '2*x', '-x', 'plain', 'x*y']


def check_special(case):
    """Infinite or undefined values and deviations."""
    v, s, w, t, kind = case[1:]
    v, s, w, t = map(float, (v, s, w, t))
    x, z = ufloat(v, s), ufloat(w, t)
    y = {'independent': lambda: z, 'same': lambda: x, '+x': lambda: +x,
         'x+0': lambda: x+0, '2*x': lambda: 2*x, '-x': lambda: -x,
         'plain': lambda: w, 'x*y': lambda: x*z}[kind]()
    b = y.nominal_value if hasattr(y, 'nominal_value') else y
    for p, q, m, n in ((x, y, v, b), (y, x, b, v)):
        got = {name: bool(op(p, q)) for name, op in OPS.items()}
        require(got['<'] == (m < n) and got['>'] == (m > n),
                'order of %r and %r: %r', p, q, got)
        require(got['!='] != got['=='], '== and != of %r and %r', p, q)
        require(got['<='] == (got['<'] or got['==']) and
                got['>='] == (got['>'] or got['==']),
                '%r and %r are not coherent: %r', p, q, got)
        # inf-inf and undefined contributions are not an exact zero
        exact = (m == n and abs(m) < float('inf') and not (
            kind in ('independent', 'plain') and (s != 0 or (
                kind == 'independent' and t != 0))))
        require(exact or not got['=='], '%r equal to %r', p, q)
        if exact and kind in ('same', '+x', 'x+0') and s < float('inf'):
            require(got['=='], '%r different from %r', p, q)
    require((x == y) == (y == x), 'symmetry')
    for p, m in ((x, v), (y, b)):
        if hasattr(p, 'nominal_value'):
            require(bool(p) is (True if m != 0 else p.std_dev != 0),
                    'truth value of %r: %r', p, bool(p))
            require(bool(p) is (p != 0) is (not p == 0.0),
                    'truth value of %r and difference from 0', p)


def run_special(task, ctx):
    for case in itertools.product(['special'], SPECIAL, SPECIAL_S, SPECIAL,
                                  SPECIAL_S, SPECIAL_K):
        case = list(case)
        with ctx.case(case):
            check_special(case)
        ctx.state(tuple(case))
        ctx.traces += 1
        ctx.transitions += 16
        ctx.outcome('special')
    ctx.sample(case)


class Unrelated(object):
    pass


OTHERS = {'str': 'a', 'number-like str': '1.0', 'bytes': b'1', 'None': None,
          'list': [], 'list of numbers': [1.0], 'tuple': (1.0,), 'dict': {},
          'set': set(), 'object': Unrelated(), 'class': float,
          'function': len, 'Ellipsis': Ellipsis, 'complex': 1+0j,
          'imaginary': 1j, 'NotImplemented': NotImplemented, 'range': range(1)}


def check_other(case):
    kind, name = case[1:]
    x = NUMBERS[kind](1.0, 0.5 if kind == 'variable' else 0.0)
    y = OTHERS[name]
    require((x == y) is False and (y == x) is False, '== %s', name)
    require((x != y) is True and (y != x) is True, '!= %s', name)
    require(y not in [x] and [x, y].index(y) == 1, 'search')
    for n in ('<', '<=', '>', '>='):
        for p, q in ((x, y), (y, x)):
            try:
                got = OPS[n](p, q)
            except TypeError:
                continue
            require(False, '%s with %s gives %r', n, name, got)


def run_other(task, ctx):
    for kind, name in itertools.product(NUMBERS, OTHERS):
        case = ['other', kind, name]
        with ctx.case(case):
            check_other(case)
        ctx.state(tuple(case))
        ctx.traces += 1
        ctx.transitions += 12
        ctx.outcome('other types')


def sort_pool():
    x = ufloat(1, 0.5)
    y = ufloat(1, 0.25)
    return [x, y, +x, x+y, x-y, ufloat(1, 0), 1.0, 2, 0, -x,
            ufloat(-3, 0.125), x*y]


def check_sort(case):
    idx = case[1]
    pool = sort_pool()
    nums = [pool[i] for i in idx]

    def nominal(n):
        return getattr(n, 'nominal_value', n)
    ref = sorted(nums, key=nominal)
    got = sorted(nums)
    require([id(n) for n in got] == [id(n) for n in ref],
            'sorted() gives %r', got)
    require([id(n) for n in sorted(nums, reverse=True)] ==
            [id(n) for n in sorted(nums, key=nominal, reverse=True)],
            'sorted(reverse=True)')
    require(min(nums) is min(nums, key=nominal) and
            max(nums) is max(nums, key=nominal), 'min() or max()')
    a = numpy.array(nums, dtype=object)
    require([nominal(n) for n in numpy.sort(a)] == [nominal(n) for n in ref],
            'numpy.sort()')
    require(nominal(a.max()) == nominal(ref[-1]), 'numpy max')


def run_sort(task, ctx):
    _, tier, first = task
    for k in range(1, 5 if tier == 'thorough' else 4):
        for rest in itertools.product(range(12), repeat=k):
            case = ['sort', [first]+list(rest)]
            with ctx.case(case):
                check_sort(case)
            ctx.state(tuple(case[1]))
            ctx.traces += 1
            ctx.transitions += 4
            ctx.outcome('sort')
            if ctx.full:
                return


def check_many(case):
    """Combinations of many variables, with a difference in one of them."""
    _, n, k, change = case
    v = [ufloat(i % 3, 0.25*(i % 4+1)) for i in range(n)]
    coefs = [i % 5+1 for i in range(n)]

    def combination(order, v, coefs):
        return sum(coefs[i]*v[i] for i in order)
    r = combination(range(n), v, coefs)
    w, other = list(v), list(coefs)
    shift = 0
    if change == 'variable':
        w[k] = ufloat(v[k].nominal_value, v[k].std_dev)
    elif change == 'coefficient':
        other[k] += 1
        shift = -v[k].nominal_value
    elif change == 'exact':
        v[k].std_dev = 0
        w[k] = v[k].nominal_value
    elif change == 'value':
        shift = 1
    q = combination(reversed(range(n)), w, other)+shift
    equal = change in ('none', 'exact')
    for x, y in (r, q), (q, r):
        require((x == y) is equal and (x != y) is (not equal),
                '== %r != %r', x == y, x != y)
        a, b = x.nominal_value, y.nominal_value
        require((x < y) is (a < b) and (x > y) is (a > b) and
                (x <= y) is (a < b or equal) and (x >= y) is (a > b or equal),
                'order')
        require(bool(x-y) is (not equal), 'truth value of the difference')


def run_many(task, ctx):
    _, tier, n = task
    for k, change in itertools.product(range(n), (
            'none', 'variable', 'coefficient', 'exact', 'value')):
        case = ['many', n, k, change]
        with ctx.case(case):
            check_many(case)
        ctx.state(tuple(case))
        ctx.traces += 1
        ctx.transitions += 14
        ctx.outcome('many variables')
    ctx.sample(case)


def tasks(tier):
    out = [['program', tier, list(s)] for s in STEPS]
    out += [['first', tier, list(s)] for s in STEPS]
    out += [['plain', tier, k] for k in NUMBERS]
    out += [['grid', tier, v] for v in GRID_V]
    out += [['other', tier], ['special', tier]]
    out += [['sort', tier, i] for i in range(12)]
    out += [['many', tier, n] for n in (4, 7, 12, 17, 33, 65)+(
        (130, 260) if tier == 'thorough' else ())]
    return out


def run_task(task, ctx):
    {'program': run_program, 'first': run_first, 'plain': run_plain,
     'grid': run_grid, 'other': run_other, 'special': run_special, 'sort': run_sort,
     'many': run_many}[task[0]](
         task, ctx)


def replay(case, ctx):
    {'program': check_program, 'first': check_first, 'plain': check_plain,
     'grid': check_grid, 'other': check_other, 'special': check_special, 'sort': check_sort,
     'many': check_many}[case[0]](
         case)
