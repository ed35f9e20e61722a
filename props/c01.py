"""C01: operators propagate uncertainty by exact first-order theory.

Three exhaustive explorations of the real operators against forward-mode
differentiation:

 step   every (operator, operand kinds, operand values, standard deviations)
        of the tables below, single step, reference derivatives computed with
        60-digit arithmetic;
 prog   every straight-line program of N operator applications over a pool of
        two variables and constants (each step uses the previous result);
 inplace  augmented assignments: same result, operands untouched.
"""
import itertools
import math
import operator

import numpy

import uncertainties
from uncertainties import ufloat, UFloat

from mc.num import mp, mpf, same, close, to_float, quad, fast_quad, fname, INF, NAN
from mc.run import require

ID = 'C01'
LEVEL = 'model_checking'
RULE = ('a state is a distinct (operator or program prefix, operand kinds, '
        'nominal value, derivatives) reached in the reference model; a '
        'transition is one operator application of the implementation '
        'compared with the model; a trace is one complete program '
        '(build, apply, read nominal value, derivatives, components, '
        'standard deviation); outcomes count which clause of the property '
        'decided each trace')
ASSUMPTIONS = [
    'values outside the enumerated tables behave like those inside',
    'points of discontinuity (abs at 0, // and % where the quotient is an '
    'integer) are checked for nominal values only',
    'derivatives that are not representable as floats (beyond 1e308) may be '
    'infinite or NaN, those below 1e-290 may be zero']

BIN = {'add': operator.add, 'sub': operator.sub, 'mul': operator.mul,
       'truediv': operator.truediv, 'floordiv': operator.floordiv,
       'mod': operator.mod, 'pow': operator.pow}
IBIN = {'add': operator.iadd, 'sub': operator.isub, 'mul': operator.imul,
        'truediv': operator.itruediv, 'floordiv': operator.ifloordiv,
        'mod': operator.imod, 'pow': operator.ipow}
UN = {'neg': operator.neg, 'pos': operator.pos, 'abs': abs,
      'trunc': math.trunc}

VALUES_QUICK = [0.0, -0.0, 0.5, 1.0, 2.0, 3.0, 10.0, 0.1, -0.5, -1.0, -2.0,
                -3.0, -2.5, 1e-200, -1e-200, 1e200, -1e200, 1e-300, 1e300,
                5e-324, 1.7e308, 123456.789, 1e-5, 1.5, INF, -INF, NAN]
VALUES_THOROUGH = VALUES_QUICK + [4.0, 5.0, 7.0, -4.0, -7.0, 0.25, -0.25,
                                  1/3., -1/3., 2/3., 1e15, 2.**53, -2.**53,
                                  1e-15, 1e100, 1e-100, -1e100, 1e150, 1e-150,
                                  1e155, 1e-160, 2.2250738585072014e-308,
                                  math.pi, -math.e, 0.999999, 1.000001,
                                  99.5, -99.5, 1000.0, 308.0, -308.0]
STDS_QUICK = [0.0, 0.25, 3.0]
STDS_THOROUGH = [0.0, 0.25, 3.0, 1e-170, 1e170, NAN, INF]

INTS = [0, 1, 2, 3, -1, -2, 7, 10, 10**20]
CONST_KINDS = {
    'float': lambda v: v,
    'npfloat': numpy.float64,
}


def py(v, kind):
    return v


# Reference derivatives --------------------------------------------------

def plain(op, a, b):
    """(value, exception type) of the plain operation."""
    try:
        r = BIN[op](a, b)
    except (ZeroDivisionError, OverflowError, ValueError) as exc:
        return None, type(exc)
    if isinstance(r, complex):
        return None, ValueError
    return float(r), None


ANY = object()       # no constraint on the derivative
UNDEF = object()     # the derivative does not exist: NaN (or infinite)


def representable(x):
    return not (abs(x) > mpf('1.7e308'))


def num(x):
    """A reference derivative: a float, or UNDEF when not representable."""
    if abs(x) > mpf('1e309'):
        return UNDEF
    if not representable(x):
        return ANY
    return to_float(x)


def quotient_near_jump(a, b):
    q = mpf(a)/mpf(b)
    frac = abs(q - mp.nint(q))
    return frac <= 1e-15*max(abs(q), 1)


def partials(op, a, b):
    """Reference partial derivatives of op at finite a, b (valid result)."""
    if op == 'add':
        return 1.0, 1.0
    if op == 'sub':
        return 1.0, -1.0
    if op == 'mul':
        return b, a
    A, B = mpf(a), mpf(b)
    if op == 'truediv':
        # The products below are not all representable when the value is not:
        return num(1/B), num(-A/B/B)
    if op == 'floordiv':
        if quotient_near_jump(a, b):
            return ANY, ANY
        return 0.0, 0.0
    if op == 'mod':
        if quotient_near_jump(a, b):
            return ANY, ANY
        return 1.0, num(-mp.floor(A/B))
    assert op == 'pow'
    if b == 0:
        dx = 0.0
    elif a == 0:
        # b > 0 here
        if b == 1:
            dx = 1.0
        elif b % 1 == 0:
            dx = 0.0
        else:
            dx = UNDEF if b < 1 else ANY   # one-sided derivative only
    else:
        v = mp.power(abs(A), B-1)
        if not representable(v):
            dx = ANY if representable(v*B) else UNDEF
        else:
            sign = -1 if a < 0 and (b-1) % 2 else 1
            dx = num(B*v*sign)
    if a == 0:
        dy = 0.0 if b > 0 else UNDEF
    elif a < 0:
        dy = UNDEF
    else:
        dy = num(mp.log(A)*mp.power(A, B))
    return dx, dy


def rel_tol(op, a, b):
    return 1e-9


def check_component(d, s, comp):
    """Is comp the error component for reference derivative d, deviation s?"""
    if s == 0:
        return comp == 0
    if d is ANY:
        return True
    if d is UNDEF:
        return comp != comp or comp == INF
    if s != s:
        return comp != comp
    if s == INF:
        return comp == INF if abs(d) > 1e-290 else True
    ref = to_float(abs(mpf(d)*mpf(s)))
    return close(comp, ref, 1e-6 if d else 1e-9, tiny=1e-285) or (
        abs(comp-ref) <= 1e-6*abs(ref)+1e-285*max(1, s))


def verify_result(r, nominal, refs, op_rel, scale=None):
    """r: result; refs: list of (variable, reference derivative, scale)."""
    require(isinstance(r, UFloat), 'result has type %s', type(r).__name__)
    require(same(r.nominal_value, nominal), 'nominal value %r instead of %r',
            r.nominal_value, nominal)
    require(same(r.n, nominal), 'n is %r instead of %r', r.n, nominal)
    ders = r.derivatives
    known = [v for v, _, _ in refs]
    for v in ders:
        require(any(v is k for k in known), 'depends on a foreign variable')
    comps = r.error_components()
    for v, d, sc in refs:
        got = ders.get(v)
        s = v.std_dev
        if got is None:
            require(d is ANY or d == 0,
                    'no derivative with respect to a variable (expected %r)', d)
            continue
        require(isinstance(got, float), 'derivative of type %s',
                type(got).__name__)
        if d is UNDEF:
            require(got != got or abs(got) == INF,
                    'derivative %r where it does not exist', got)
        elif d is not ANY:
            require(close(got, d, op_rel, sc), 'derivative %r instead of %r',
                    got, d)
        if sc and d is not ANY and d is not UNDEF and abs(d) < INF:
            d = got     # correct within a rounding that depends on sc
        require(check_component(d, s, comps[v]),
                'error component %r for derivative %r and deviation %r',
                comps[v], d, s)
    ref_std = quad(comps.values())
    require(close(r.std_dev, ref_std, 1e-12, tiny=0 if ref_std > 1e-300
                  else 1e-323), 'std_dev %r instead of %r', r.std_dev, ref_std)
    require(close(r.s, ref_std, 1e-12, tiny=0 if ref_std > 1e-300
                  else 1e-323), 's %r instead of %r', r.s, ref_std)


# Single steps -------------------------------------------------------------

KINDS = ['UU', 'UC', 'CU', 'UI', 'IU', 'UN', 'NU', 'UB', 'BU', 'XX']


def step_case(case, ctx):
    """case: [op, kind, a, b, sa, sb, inplace]"""
    op, kind, a, b, sa, sb, inplace = case[1:]
    a, b = decode(a), decode(b)
    sa, sb = decode(sa), decode(sb)
    ua = ub = None
    if kind == 'XX':
        ua = ufloat(a, sa)
        left = right = ua
    else:
        left, right = a, b
        if kind[0] == 'U':
            left = ua = ufloat(a, sa)
        elif kind[0] == 'N':
            left = numpy.float64(a)
        if kind[1] == 'U':
            right = ub = ufloat(b, sb)
        elif kind[1] == 'N':
            right = numpy.float64(b)
    fa, fb = (float(a) if not isinstance(a, float) else a,
              float(b) if not isinstance(b, float) else b)
    value, exc = plain(op, fa, fb)
    table = IBIN if inplace else BIN
    ctx.transitions += 1
    ctx.traces += 1
    try:
        r = table[op](left, right)
    except Exception as e:
        require(exc is not None and type(e) is exc,
                'raises %r instead of %s', e, exc.__name__ if exc else value)
        ctx.outcome('exception')
        ctx.state((op, kind, exc.__name__))
        check_untouched(ua, a, sa)
        check_untouched(ub, b, sb)
        return
    require(exc is None, 'gives %r instead of raising %s', r,
            exc.__name__ if exc else None)
    if not (math.isfinite(fa) and math.isfinite(fb) and math.isfinite(value)):
        require(isinstance(r, UFloat) and same(r.nominal_value, value),
                'nominal value %r instead of %r', r.nominal_value, value)
        r.std_dev  # must be readable
        ctx.outcome('non-finite value')
        ctx.state((op, kind, repr(value)))
    else:
        dx, dy = partials(op, fa, fb)
        tol = rel_tol(op, fa, fb)
        if kind == 'XX':
            if dx is ANY or dy is ANY:
                refs = [(ua, ANY, 0)]
            elif dx is UNDEF or dy is UNDEF:
                refs = [(ua, UNDEF, 0)]
            else:
                t = mpf(dx)+mpf(dy)
                refs = [(ua, num(t), max(abs(dx), abs(dy)))]
        else:
            refs = []
            if ua is not None:
                refs.append((ua, dx, 0))
            if ub is not None:
                refs.append((ub, dy, 0))
        verify_result(r, value, refs, tol)
        ctx.outcome('undefined derivative' if any(
            d is UNDEF for _, d, _ in refs) else 'jump' if any(
                d is ANY for _, d, _ in refs) else 'differentiable')
        ctx.state((op, kind, value, tuple(
            str(d) if not isinstance(d, float) else d for _, d, _ in refs)))
    check_untouched(ua, a, sa)
    check_untouched(ub, b, sb)


def check_untouched(u, v, s):
    if u is not None:
        require(same(u.nominal_value, float(v)) and (
            u.std_dev == s or s != s), 'operand modified')
        d = u.derivatives
        require(len(d) == 1 and d[u] == 1.0, 'operand derivatives modified')


def unary_case(case, ctx):
    op, a, s = case[1:]
    a, s = decode(a), decode(s)
    u = ufloat(a, s)
    ctx.transitions += 1
    ctx.traces += 1
    try:
        value = float(UN[op](a))
        exc = None
    except (ValueError, OverflowError) as e:
        value, exc = None, type(e)
    try:
        r = UN[op](u)
    except Exception as e:
        require(exc is not None and type(e) is exc, 'raises %r', e)
        ctx.outcome('exception')
        return
    require(exc is None, 'no exception')
    if not isinstance(r, UFloat):
        require(False, 'type %s', type(r).__name__)
    if op == 'trunc' and a == 0:
        value = abs(value) if r.nominal_value == 0 and math.copysign(
            1, r.nominal_value) > 0 else value
    d = {'neg': -1.0, 'pos': 1.0,
         'abs': ANY if a == 0 or a != a else math.copysign(1, a),
         'trunc': ANY if a % 1 == 0 or not math.isfinite(a) else 0.0}[op]
    verify_result(r, value, [(u, d, 0)], 1e-12)
    check_untouched(u, a, s)
    ctx.outcome('unary')
    ctx.state((op, fname(a)))


def decode(x):
    if isinstance(x, str):
        if x.startswith('#'):
            return int(x[1:])
        if x in ('True', 'False'):
            return x == 'True'
        return float.fromhex(x) if 'x' in x else float(x)
    return x


def enc(x):
    if isinstance(x, bool):
        return str(x)
    if isinstance(x, int):
        return '#%d' % x
    return fname(x)


def step_cases(op, kind, tier):
    values = VALUES_QUICK if tier == 'quick' else VALUES_THOROUGH
    stds = STDS_QUICK if tier == 'quick' else STDS_THOROUGH
    ints = INTS
    bools = [False, True]
    if kind == 'XX':
        for a in values:
            for s in stds:
                yield ['step', op, kind, enc(a), enc(a), enc(s), enc(s), False]
        return
    dom = {'U': values, 'C': values, 'N': values, 'I': ints, 'B': bools}
    for a in dom[kind[0]]:
        for b in dom[kind[1]]:
            # numpy scalars follow numpy's own conventions for exceptions:
            # they only meet the operators of the package when reversed
            for sa in (stds if kind[0] == 'U' else [0.0]):
                for sb in (stds if kind[1] == 'U' else [0.0]):
                    yield ['step', op, kind, enc(a), enc(b), enc(sa), enc(sb),
                           False]
                    if kind in ('UU', 'UC') and sa and (sb or kind == 'UC'):
                        yield ['step', op, kind, enc(a), enc(b), enc(sa),
                               enc(sb), True]


# Programs --------------------------------------------------------------------

class Undefined(Exception):
    pass


class Model(object):
    """A value with float derivatives (dict) and magnitude of the terms."""
    __slots__ = ('v', 'd', 'm')

    def __init__(self, v, d, m):
        self.v, self.d, self.m = v, d, m


def local_partials(op, a, b):
    """Float derivatives for programs (moderate values); None: not checked."""
    if op == 'add':
        return 1.0, 1.0
    if op == 'sub':
        return 1.0, -1.0
    if op == 'mul':
        return b, a
    if op == 'truediv':
        return 1/b, -(a/b)/b
    if op in ('floordiv', 'mod'):
        q = a/b
        if abs(q-round(q)) <= 2e-6*max(1, abs(q)):
            return None
        return (0.0, 0.0) if op == 'floordiv' else (1.0, -float(math.floor(q)))
    if a <= 0:
        return None
    return b*a**(b-1), math.log(a)*a**b


def model_apply(op, x, y):
    """Model result; raises the plain exception."""
    if y is None:
        v = float(UN[op](x.v))
        if op == 'neg':
            c = -1.0
        elif op == 'abs':
            c = None if x.v == 0 else math.copysign(1.0, x.v)
        if x.d is None or c is None:
            return Model(v, None, None)
        return Model(v, {k: c*d for k, d in x.d.items()}, dict(x.m))
    value, exc = plain(op, x.v, y.v)
    if exc is not None:
        raise exc()
    if x.d is None or y.d is None:
        return Model(value, None, None)
    if not x.d and not y.d:
        return Model(value, {}, {})
    try:
        loc = local_partials(op, x.v, y.v)
    except (OverflowError, ZeroDivisionError):
        loc = None
    if loc is None and not (op == 'pow' and not y.d and x.v < 0
                            and y.v % 1 == 0):
        return Model(value, None, None)
    if loc is None:
        try:
            loc = (y.v*x.v**(y.v-1), 0.0)
        except (OverflowError, ZeroDivisionError):
            return Model(value, None, None)
    d, m = {}, {}
    for c, z in zip(loc, (x, y)):
        for k in z.d:
            d[k] = d.get(k, 0.0)+c*z.d[k]
            m[k] = m.get(k, 0.0)+abs(c)*z.m[k]
    if not all(math.isfinite(t) for t in m.values()):
        return Model(value, None, None)
    return Model(value, d, m)


POOLS = {
    'A': ((2.0, 0.25), (3.0, 0.5), (2, 0.5)),
    'B': ((-1.5, 0.125), (0.75, 2.0), (3, -2.0)),
    'C': ((5.0, 0.5), (-0.5, 0.25), (-1, 2.5)),
    'D': ((0.1, 0.01), (7.3, 0.2), (10, 1.1)),
    'E': ((2.5, 0.25), (1.25, 0.5), (2,)),
}
PROG_BIN = ['add', 'sub', 'mul', 'truediv', 'pow', 'mod', 'floordiv']
PROG_UN = ['neg', 'abs']


def new_pool(name):
    (a, sa), (b, sb), consts = POOLS[name]
    impl = [ufloat(a, sa), ufloat(b, sb)] + list(consts)
    model = [Model(a, {0: 1.0}, {0: 1.0}), Model(b, {1: 1.0}, {1: 1.0})]
    model += [Model(float(c), {}, {}) for c in consts]
    return impl, model


def steps_for(size, must, pool='A'):
    """All operations on a pool of the given size that use index `must`
    (None for the first step, which must use a variable)."""
    for op in PROG_BIN if pool != 'E' else ['add', 'sub', 'mul', 'truediv',
                                            'pow']:
        for i in range(size):
            for j in range(size):
                if must is not None and must not in (i, j):
                    continue
                if must is None and i > 1 and j > 1:
                    continue
                yield (op, i, j)
    for op in PROG_UN:
        for i in ([must] if must is not None else [0, 1]):
            yield (op, i, None)


def check_prog(r, m, variables, ctx):
    ctx.traces += 1
    require(isinstance(r, UFloat), 'type %s', type(r).__name__)
    require(same(r.nominal_value, m.v), 'nominal value %r instead of %r',
            r.nominal_value, m.v)
    if m.d is None or not math.isfinite(m.v):
        ctx.outcome('program: value only')
        return
    ders = r.derivatives
    var_sum = []
    for v in ders:
        require(v is variables[0] or v is variables[1], 'foreign variable')
    for k, v in enumerate(variables):
        if k not in m.d:
            require(v not in ders, 'depends on an unrelated variable')
            continue
        got = ders.get(v)
        if got is None:
            require(m.d[k] == 0, 'missing derivative (expected %r)', m.d[k])
            got = 0.0
        require(close(got, m.d[k], 1e-7, m.m[k]),
                'derivative %r instead of %r with respect to variable %d',
                got, m.d[k], k)
        var_sum.append(abs(got)*v.std_dev)
    ref = fast_quad(var_sum)
    require(close(r.std_dev, ref, 1e-12), 'std_dev %r instead of %r',
            r.std_dev, ref)
    ctx.outcome('program: derivatives')


def explore_programs(pool, first, depth, ctx):
    """All programs of the given depth that start with `first`."""
    impl0, model0 = new_pool(pool)
    variables = impl0[:2]

    def rec(impl, model, prefix, step):
        op, i, j = step
        prog = prefix+[list(step)]
        x, y = model[i], None if j is None else model[j]
        try:
            m = model_apply(op, x, y)
            exc = None
        except Exception as e:
            m, exc = None, type(e)
        ctx.transitions += 1
        case = ['prog', pool, prog]
        r = None
        with ctx.case(case):
            try:
                if j is None:
                    r = UN[op](impl[i])
                else:
                    r = BIN[op](impl[i], impl[j])
            except Exception as e:
                require(exc is not None and type(e) is exc,
                        'raises %r instead of %s', e,
                        exc.__name__ if exc else m.v)
                ctx.outcome('program: exception')
                return
            require(exc is None, 'no %s exception: %s', exc, r)
        if r is None or m is None:
            return
        if len(prog) == depth:
            with ctx.case(case):
                check_prog(r, m, variables, ctx)
            ctx.state((pool, m.v, m.d and tuple(m.d.items())))
            return
        # A result that was read and one that was not must have the same
        # future: only complete programs read their results here (reads at
        # other points are explored by C02)
        impl2, model2 = impl+[r], model+[m]
        for s in steps_for(len(impl2), len(impl2)-1, pool):
            rec(impl2, model2, prog, s)
            if ctx.full:
                return

    rec(impl0, model0, [], first)


def run_prog(case, ctx):
    pool, prog = case[1], case[2]
    impl, model = new_pool(pool)
    variables = impl[:2]
    for n, (op, i, j) in enumerate(prog):
        try:
            m = model_apply(op, model[i], None if j is None else model[j])
            exc = None
        except Exception as e:
            m, exc = None, type(e)
        try:
            r = UN[op](impl[i]) if j is None else BIN[op](impl[i], impl[j])
        except Exception as e:
            require(exc is not None and type(e) is exc, 'raises %r', e)
            return
        require(exc is None, 'no %s exception', exc)
        impl.append(r)
        model.append(m)
    check_prog(impl[-1], model[-1], variables, ctx)


# Interface ----------------------------------------------------------------------

def tasks(tier):
    out = []
    for op in BIN:
        for kind in KINDS:
            out.append(['step', op, kind, tier])
    out.append(['unary', tier])
    for pool in ['A', 'B'] if tier == 'quick' else sorted(POOLS):
        depth = 4 if pool == 'E' else 3
        for first in steps_for(len(new_pool(pool)[0]), None, pool):
            out.append(['prog', pool, list(first), depth])
    return out


def run_task(task, ctx):
    if task[0] == 'step':
        for case in step_cases(task[1], task[2], task[3]):
            with ctx.case(case):
                step_case(case, ctx)
            if ctx.full:
                return
        ctx.sample(case)
    elif task[0] == 'unary':
        values = VALUES_QUICK if task[1] == 'quick' else VALUES_THOROUGH
        for op in UN:
            for a in values:
                for s in STDS_THOROUGH:
                    case = ['unary', op, enc(a), enc(s)]
                    with ctx.case(case):
                        unary_case(case, ctx)
        ctx.sample(case)
    else:
        explore_programs(task[1], tuple(task[2]), task[3], ctx)
        ctx.sample(['prog', task[1], [task[2]]])


def replay(case, ctx):
    {'step': step_case, 'unary': unary_case, 'prog': run_prog}[case[0]](case, ctx)
