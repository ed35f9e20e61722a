"""C03: standard deviations are live and validated.

Explicit-state breadth-first search: a state is (standard deviation of each
variable, which results exist, which were already evaluated); every event is
executed on fresh real objects by replaying the history that reaches the
state, then everything is read in every way and compared with the model.
"""
import collections
import copy
import itertools
import math
import pickle
import re
import warnings
from decimal import Decimal
from fractions import Fraction

import numpy

import uncertainties
from uncertainties import ufloat, UFloat, umath, unumpy
from uncertainties import covariance_matrix, correlation_matrix

from mc.run import require
from mc.num import same, close, fast_quad, INF, NAN

ID = 'C03'
LEVEL = 'model_checking'
RULE = ('explicit-state search to a fixed point: state = (standard deviations '
        'of the variables, results built, results evaluated); transition = '
        'build, read, valid or invalid assignment, executed on fresh real '
        'objects after replaying the shortest history of the state; trace = '
        'one replayed history whose every reading was compared with the model')
ASSUMPTIONS = [
    'more than two variables and five results behave like these',
    'an infinite or NaN deviation multiplied by a zero derivative is not '
    'specified']

INIT = {'a': (3.0, 0.5), 'b': (-2.0, 0.25)}

EXPRS = {
    # name: (builder(objects), derivatives wrt (a, b), needs)
    'sum': (lambda o: o['a']+o['b'], (1.0, 1.0), ()),
    'prod': (lambda o: o['a']*o['b'], (-2.0, 3.0), ()),
    'neg': (lambda o: -o['a'], (-1.0, None), ()),
    'sqrt': (lambda o: umath.sqrt(o['a']+1), (0.25, None), ()),
    'nest': (lambda o: o['sum']*o['prod'], (-8.0, -3.0), ('sum', 'prod')),
    'cancel': (lambda o: o['sum']-o['a'], (0.0, 1.0), ('sum',)),
}
NAMES = sorted(EXPRS)

VALID = collections.OrderedDict([
    ('0', 0), ('0.5', 0.5), ('3', 3), ('2.0', numpy.float64(2)),
    ('inf', INF), ('nan', NAN)])
VALID_MORE = collections.OrderedDict([
    ('frac', Fraction(1, 4)), ('f32', numpy.float32(0.5)),
    ('i64', numpy.int64(4)), ('true', True), ('dec', Decimal('0.5')),
    ('1e-300', 1e-300), ('1e300', 1e300),
    ('1e-200', 1e-200), ('1e200', 1e200), ('1e-141', 1e-141),
    ('arr0', numpy.array(1.5)),
    ('5e-324', 5e-324),
    # Very close to the initial deviations:
    ('0.5+', math.nextafter(0.5, 1)), ('0.5-', 0.5-1e-13),
    ('0.25+', 0.25+1e-10), ('2+', math.nextafter(2, 3)), ('3-', 3-1e-8)])
EXTREME = ['1e-300', '1e300', '1e-200', '1e200', '1e-141', '3']
INVALID = collections.OrderedDict([
    ('-1', -1), ('-0.5', -0.5), ('-inf', -INF), ('np-1', numpy.float64(-1)),
    ('np-inf', numpy.float64(-INF)), ('-tiny', -5e-324),
    ('frac', Fraction(-1, 3)), ('none', None), ('str', 'x'), ('str1', '1'),
    ('complex', 1j), ('list', [1]), ('np-i', numpy.int64(-3)),
    ('f32', numpy.float32(-0.5)), ('dec', Decimal('-0.5'))])
ALL_VALID = dict(VALID, **VALID_MORE)

READS = {
    'std_dev': lambda r: r.std_dev,
    'derivatives': lambda r: r.derivatives,
    'repr': repr,
    'str': str,
    'cov': lambda r: covariance_matrix([r]),
    'pickle': lambda r: pickle.dumps(r),
}


def enabled(state, read_kinds):
    sa, sb, built, evaluated = state
    for v in 'ab':
        for k in VALID:
            yield ('set', v, k)
        yield ('alias', v, None)
    for n in NAMES:
        if n not in built and all(m in built for m in EXPRS[n][2]):
            yield ('build', n, None)
    for n in built:
        if n not in evaluated:
            for k in read_kinds:
                yield ('read', n, k)


def step_model(state, ev):
    sa, sb, built, evaluated = state
    kind, x, k = ev
    if kind == 'set':
        s = float(ALL_VALID[k])
        return (s if x == 'a' else sa, s if x == 'b' else sb, built, evaluated)
    if kind == 'alias':
        return (sb, sb, built, evaluated) if x == 'a' else (
            sa, sa, built, evaluated)
    if kind == 'build':
        return (sa, sb, tuple(sorted(built+(x,))), evaluated)
    return (sa, sb, built, tuple(sorted(set(evaluated+(x,)))))


def canon(state):
    return tuple('nan' if isinstance(x, float) and x != x else x for x in state)


def apply(o, ev):
    kind, x, k = ev
    if kind == 'set':
        o[x].std_dev = ALL_VALID[k]
    elif kind == 'legacy':
        o[x].set_std_dev(ALL_VALID[k])
    elif kind == 'alias':
        o[x].std_dev = o['b' if x == 'a' else 'a'].std_dev
    elif kind == 'build':
        o[x] = EXPRS[x][0](o)
    elif kind == 'read':
        READS[k](o[x])


def start():
    return {v: ufloat(*INIT[v]) for v in 'ab'}


def component(d, s):
    """Expected component, or None when not specified."""
    if s == 0:
        return 0.0
    if d == 0:
        return 0.0 if math.isfinite(s) else None
    return abs(d)*s


def verify(o, state):
    sa, sb, built, evaluated = state
    stds = {'a': sa, 'b': sb}
    for v in 'ab':
        u = o[v]
        for got in (u.std_dev, u.s, uncertainties.std_dev(u)):
            require(same(float(got), stds[v]), 'std_dev of %s is %r instead '
                    'of %r', v, got, stds[v])
        require(isinstance(u.std_dev, float), 'std_dev has type %s',
                type(u.std_dev).__name__)
        require(u.nominal_value == INIT[v][0], 'nominal value changed')
        comp = u.error_components()
        require(len(comp) == 1 and close(comp[u], stds[v], 1e-13),
                'components of a variable: %r', comp)
        text = repr(u)
        require(text.endswith('+/-' + (repr(stds[v]) if stds[v] else '0')),
                'repr %s', text)
    for n in built:
        r = o[n]
        expected = {}
        specified = True
        for v, d in zip('ab', EXPRS[n][1]):
            if d is None:
                continue
            c = component(d, stds[v])
            specified = specified and c is not None
            expected[v] = c
        comps = r.error_components()
        for v, c in expected.items():
            got = comps.get(o[v], 0.0)
            if c is not None:
                require(close(got, c, 1e-12), '%s: component %r instead of %r',
                        n, got, c)
        for v in comps:
            require(any(v is o[k] for k in expected), '%s: foreign variable', n)
        if not specified:
            continue
        ref = fast_quad(expected.values())
        for got in (r.std_dev, r.s, uncertainties.std_dev(r),
                    float(unumpy.std_devs([r])[0])):
            require(close(float(got), ref, 1e-12), '%s: std_dev %r instead of %r',
                    n, got, ref)
        text = repr(r)
        shown = float(text.split('+/-')[1])
        require(close(shown, ref, 1e-12), '%s: repr %s instead of std_dev %r',
                n, text, ref)
        text = '{:.17ue}'.format(r) if math.isfinite(ref) and ref else None
        if text:
            m = re.match(r'\((.*)\+/-(.*)\)e(.*)$', text)
            require(close(float(m.group(2)+'e'+m.group(3)), ref, 1e-12),
                    '%s: formatted as %s instead of std_dev %r', n, text, ref)
    # Covariances:
    names = ['a', 'b']+list(built)
    derivs = dict({'a': (1.0, None), 'b': (None, 1.0)},
                  **{n: EXPRS[n][1] for n in built})
    cov = covariance_matrix([o[n] for n in names])
    for i, n in enumerate(names):
        for j, m in enumerate(names):
            total, ok = 0.0, True
            for v, d1, d2 in zip('ab', derivs[n], derivs[m]):
                s = stds[v]
                if d1 is None or d2 is None or s == 0:
                    continue
                if d1*d2 == 0:
                    ok = ok and math.isfinite(s)
                    continue
                total += d1*d2*s*s
            if ok and not (s != s and False):
                require(close(cov[i][j], total, 1e-12, 1e-12*0+abs(total)),
                        'covariance(%s, %s) is %r instead of %r', n, m,
                        cov[i][j], total)


def verify_invalid(o, state, ctx):
    """Refused assignments leave everything unchanged."""
    for v in 'ab':
        for k, value in INVALID.items():
            before = o[v].std_dev
            for how in ('attr', 'legacy'):
                try:
                    if how == 'attr':
                        o[v].std_dev = value
                    else:
                        o[v].set_std_dev(value)
                except Exception:
                    pass
                else:
                    require(False, 'std_dev = %r accepted', value)
                ctx.transitions += 1
            require(same(float(o[v].std_dev), float(before)),
                    'refused value %r changed the std_dev', value)
        for attr in ('nominal_value', 'n'):
            must_refuse(o[v], attr, 1.0)
    for n in state[2]:
        for attr in ('nominal_value', 'n', 'std_dev', 's'):
            must_refuse(o[n], attr, 1.0)
        try:
            o[n].set_std_dev(1)
        except AttributeError:
            pass
        else:
            require(False, 'set_std_dev() on a calculated number')


def must_refuse(x, attr, value):
    try:
        setattr(x, attr, value)
    except AttributeError:
        return
    require(False, '%s can be assigned', attr)


def run_history(hist, ctx, invalid=True):
    o = start()
    state = (INIT['a'][1], INIT['b'][1], (), ())
    for ev in hist:
        ev = tuple(ev)
        state = step_model(state, ('set',)+ev[1:] if ev[0] == 'legacy' else ev)
        apply(o, ev)
        ctx.transitions += 1
    if invalid:
        verify_invalid(o, state, ctx)
    verify(o, state)
    if invalid:
        verify_invalid(o, state, ctx)
        verify(o, state)
    ctx.traces += 1
    ctx.state(canon(state))
    ctx.outcome('%d results, %d evaluated' % (len(state[2]), len(state[3])))


def bfs(names, read_kinds):
    """Histories reaching each model state restricted to some results."""
    global NAMES
    init = (INIT['a'][1], INIT['b'][1], (), ())
    seen = {canon(init): []}
    queue = collections.deque([(init, [])])
    while queue:
        state, hist = queue.popleft()
        yield state, hist
        for ev in enabled(state, read_kinds):
            if ev[0] == 'build' and ev[1] not in names:
                continue
            nxt = step_model(state, ev)
            k = canon(nxt)
            if k not in seen:
                seen[k] = hist+[ev]
                queue.append((nxt, hist+[ev]))


def explore(task, ctx):
    _, names, read_kinds, part, parts = task
    n = 0
    for state, hist in bfs(names, read_kinds[:1]):
        n += 1
        if n % parts != part:
            continue
        # The state itself, with all refused assignments:
        case = ['hist', hist]
        with ctx.case(case):
            run_history(hist, ctx)
        # All its outgoing transitions:
        for ev in enabled(state, read_kinds):
            if ev[0] == 'build' and ev[1] not in names:
                continue
            case = ['hist', hist+[ev]]
            with ctx.case(case):
                run_history(hist+[ev], ctx, invalid=False)
        # Both deviations very small or very large, or very different:
        for ka in EXTREME:
            for kb in EXTREME:
                case = ['hist', hist+[('set', 'a', ka), ('set', 'b', kb)]]
                with ctx.case(case):
                    run_history(case[1], ctx, invalid=False)
        for v in 'ab':
            for k in VALID_MORE:
                for how in ('set', 'legacy'):
                    case = ['hist', hist+[(how, v, k)]]
                    with ctx.case(case):
                        run_history(hist+[(how, v, k)], ctx, invalid=False)
        if ctx.full:
            return
    ctx.sample(case)


CREATE = {
    'ufloat': lambda s: ufloat(1, s),
    'keyword': lambda s: ufloat(nominal_value=1, std_dev=s),
    'tag': lambda s: ufloat(1, s, 't'),
    'tuple': lambda s: ufloat((1, s)),
    'tupletag': lambda s: ufloat((1, s), 't'),
    'uarray': lambda s: unumpy.uarray([1], [s])[0],
    'umatrix': lambda s: unumpy.umatrix([[1]], [[s]])[0, 0],
    'copy': lambda s: copy.copy(ufloat(1, s)),
}


def run_create(case, ctx):
    _, how, valid, k = case
    ctx.traces += 1
    ctx.transitions += 1
    ctx.state(('create', how, valid, k))
    if valid:
        value = ALL_VALID[k]
        u = CREATE[how](value)
        require(same(float(u.std_dev), float(value)), 'std_dev is %r',
                u.std_dev)
        require(u.nominal_value == 1, 'nominal value %r', u.nominal_value)
        ctx.outcome('created')
    else:
        value = INVALID[k]
        try:
            u = CREATE[how](value)
        except Exception:
            ctx.outcome('refused')
        else:
            require(False, '%s accepts the standard deviation %r (gives %r)',
                    how, value, u.std_dev)


def create_cases():
    for how in CREATE:
        for k in ALL_VALID:
            if how in ('uarray', 'umatrix') and k in ('arr0',):
                continue
            yield ['create', how, True, k]
        for k in INVALID:
            if how in ('uarray', 'umatrix') and k in ('list', 'complex'):
                continue
            if how in ('uarray', 'umatrix') and k == 'str1':
                continue
            yield ['create', how, False, k]


def tasks(tier):
    kinds = sorted(READS)
    kinds.remove('std_dev')
    kinds.insert(0, 'std_dev')
    groups = [['sum', 'prod', 'nest'], ['sum', 'cancel', 'sqrt']]
    if tier == 'thorough':
        groups = [['sum', 'prod', 'nest', 'neg'],
                  ['sum', 'cancel', 'sqrt', 'neg']]
    out = [['bfs', g, kinds, i, 64] for g in groups for i in range(64)]
    # Complete histories, without merging of states:
    for first in PATH_EVENTS:
        out.append(['paths', first, 5 if tier == 'quick' else 6])
        if first[0] != 'read' and first[1] != 'sum':
            out.append(['observed', first, 4 if tier == 'quick' else 5])
    out.append(['create'])
    return out


PATH_EVENTS = [('set', 'a', '0'), ('set', 'a', '3'), ('set', 'a', 'nan'),
               ('set', 'b', '0'), ('set', 'b', '2.0'),
               ('build', 'sum', None), ('build', 'nest', None),
               ('read', 'sum', 'std_dev'), ('read', 'nest', 'repr'),
               ('alias', 'b', None)]
PATH_PREFIX = [('build', 'prod', None)]


def explore_paths(task, ctx):
    """All event sequences of the given length (no state merging)."""
    _, first, depth = task

    def rec(hist, built):
        if len(hist) == depth:
            case = ['hist', PATH_PREFIX+hist]
            with ctx.case(case):
                run_history(PATH_PREFIX+hist, ctx, invalid=False)
            return
        for ev in PATH_EVENTS:
            if ev[0] == 'read' and ev[1] not in built:
                continue
            if ev[0] == 'build' and (ev[1] in built or (
                    ev[1] == 'nest' and 'sum' not in built)):
                continue
            rec(hist+[ev], built | {ev[1]} if ev[0] == 'build' else built)
            if ctx.full:
                return
    first = tuple(first)
    if first[0] == 'read' or first[1] == 'nest':
        return
    rec([first], {first[1]} if first[0] == 'build' else set())
    ctx.sample(['hist', PATH_PREFIX+[first]])


# Everything that can be read from one number (or from it and a variable):
OBSERVE = collections.OrderedDict([
    ('std_dev', lambda r, o: r.std_dev),
    ('s', lambda r, o: r.s),
    ('std_dev()', lambda r, o: uncertainties.std_dev(r)),
    ('nominal', lambda r, o: (r.nominal_value, r.n,
                              uncertainties.nominal_value(r))),
    ('components', lambda r, o: sorted(
        r.error_components().items(), key=lambda kv: kv[0].nominal_value)),
    ('derivatives', lambda r, o: sorted(
        (v.nominal_value, d) for v, d in r.derivatives.items())),
    ('str', lambda r, o: str(r)),
    ('repr', lambda r, o: repr(r)),
    ('.1u', lambda r, o: '{:.1u}'.format(r)),
    ('.3ueS', lambda r, o: '{:.3ueS}'.format(r)),
    ('.2fP', lambda r, o: '{:.2fP}'.format(r)),
    ('20L', lambda r, o: '{:20L}'.format(r)),
    ('format()', lambda r, o: r.format('.2u')),
    ('score', lambda r, o: r.std_score(1.5)),
    ('cov', lambda r, o: covariance_matrix([r, o['a'], o['b']])),
    ('corr', lambda r, o: numpy.array(
        correlation_matrix([r, o['a'], o['b']])).tolist()),
    ('array', lambda r, o: (float(unumpy.std_devs([r])[0]),
                            float(unumpy.nominal_values([r])[0]))),
    ('function', lambda r, o: (2*r+o['a']).std_dev),
    ('umath', lambda r, o: umath.atan(r).std_dev),
    ('same', lambda r, o: (r == r, r == o['a'], r != r, r < o['b'],
                           (r-r).std_dev, bool(r == r+0*o['b']))),
    ('copy', lambda r, o: copy.copy(r).std_dev),
    ('deepcopy', lambda r, o: copy.deepcopy(r).std_dev),
    ('pickle', lambda r, o: str(pickle.loads(pickle.dumps(r)))),
    ('hash', lambda r, o: hash(r) == hash(r)),
])


def observe(o, containers):
    """All the readings of all the numbers."""
    out = {}
    for n, x in containers.items():
        out[n, 'std_devs'] = repr(unumpy.std_devs(x).tolist())
        out[n, 'nominal'] = repr(unumpy.nominal_values(x).tolist())
        out[n, 'str'] = str(x)
        if n == 'matrix':
            out[n, 'attribute'] = repr(x.std_devs.tolist())
            out[n, 'inverse'] = repr(x.I.std_devs.tolist())
        if n != 'array':
            out[n, 'cov'] = repr(covariance_matrix(list(x.flat)))
    for n in sorted(o):
        for kind, read in OBSERVE.items():
            try:
                value = read(o[n], o)
                if kind == 'components':
                    value = [(v.nominal_value, c) for v, c in value]
                value = repr(value)
            except Exception as e:
                value = 'raises '+type(e).__name__
            out[n, kind] = value
    return out


def run_observed(hist, ctx):
    """
    Reading never changes what is read later: after the same assignments, the
    numbers that were read after every event and the numbers that were never
    read have the same readings.
    """
    watched, fresh = start(), start()

    def containers(o):
        return {'array': numpy.array([o['a'], 1, o['b']]),
                'matrix': unumpy.matrix([[o['a'], o['b']], [o['b'], o['a']]])}

    stored, stored_fresh = containers(watched), containers(fresh)
    observe(watched, stored)
    for ev in hist:
        ev = tuple(ev)
        apply(watched, ev)
        observe(watched, stored)
        if ev[0] != 'read':
            apply(fresh, ev)
        ctx.transitions += 2
    got = observe(watched, stored)
    ref = observe(fresh, stored_fresh)
    for key in ref:
        require(got[key] == ref[key], '%s of %s is %s if it was also read '
                'before, %s otherwise', key[1], key[0], got[key], ref[key])
    ctx.traces += 1
    ctx.state(('observed', repr(hist)))
    ctx.outcome('observed')


def explore_observed(task, ctx):
    """All histories of a given length, read in all ways after each event."""
    _, first, depth = task

    def rec(hist, built):
        if len(hist) == depth:
            case = ['observed', OBSERVED_PREFIX+hist]
            with ctx.case(case):
                run_observed(OBSERVED_PREFIX+hist, ctx)
            return
        for ev in PATH_EVENTS:
            if ev[0] == 'read':
                continue
            if ev[0] == 'build' and ev[1] in built:
                continue
            rec(hist+[ev], built | {ev[1]} if ev[0] == 'build' else built)
            if ctx.full:
                return
    first = tuple(first)
    rec([first], {'sum', 'prod'} | (
        {first[1]} if first[0] == 'build' else set()))
    ctx.sample(['observed', OBSERVED_PREFIX+[first]])


OBSERVED_PREFIX = [('build', 'prod', None), ('build', 'sum', None)]


def run_task(task, ctx):
    if task[0] == 'observed':
        explore_observed(task, ctx)
        return
    if task[0] == 'paths':
        explore_paths(task, ctx)
        return
    if task[0] == 'bfs':
        explore(task, ctx)
    else:
        for case in create_cases():
            with ctx.case(case):
                run_create(case, ctx)


def replay(case, ctx):
    if case[0] == 'hist':
        run_history(case[1], ctx)
    elif case[0] == 'observed':
        run_observed(case[1], ctx)
    else:
        run_create(case, ctx)
