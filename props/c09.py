"""C09: wrap() is a drop-in replacement with the right derivatives.

Functions of all signature shapes (positional-only, positional-or-keyword with
and without default, variable positional, keyword-only with and without
default, variable keyword parameters; plain functions, lambdas, bound, class
and static methods, callable objects, functools.partial objects, cached and
decorated functions) are wrapped with all kinds of derivative specifications.
All histories of one or two calls (longer ones for small signatures) in all
the ways of passing the arguments are executed; the function and the marked
derivatives record what they receive.  The derivatives obtained tell which
derivative was used for each argument and where it was evaluated.
"""
import inspect
import itertools
import json
import math

import numpy

from uncertainties import core, ufloat, UFloat, wrap, umath

from mc.num import close
from mc.run import require

ID = 'C09'
LEVEL = 'model_checking'
RULE = ('a state is a distinct (signature, kind of callable, derivative '
        'specification, history of call patterns); a transition is one call '
        'of a wrapped function; a trace is one history in which every result, '
        'derivative, exception and argument received by the function was '
        'compared with the reference')
ASSUMPTIONS = ['signatures with more parameters of a kind behave like those '
               'inside the bound']


########################################
# Signatures

def signatures():
    """(positional-only, positional-or-keyword, with default, *args,
    keyword-only ('', 'required', 'default'), **kwargs)"""
    return list(itertools.product((0, 1), (0, 1, 2), (0, 1), (0, 1),
                                  ('', 'required', 'default'), (0, 1)))


def names_of(sig):
    po, pk, dflt, var, ko, kw = sig
    positional = (['p'] if po else [])+['a', 'b'][:pk]+(['d'] if dflt else [])
    return positional


DEFAULTS = {'d': 7.0, 'k': 11.0}


def coefficient(index, name):
    """Distinct coefficient for each parameter."""
    if index is not None:
        return index+2
    return 20+sum(map(ord, name)) % 7


def compute(pos, kws):
    """Value of the function for values of positional and keyword params."""
    total = sum(pos)+sum(kws.values())
    return (sum(coefficient(i, None)*p*p for i, p in enumerate(pos))
            + sum(coefficient(None, n)*p*p for n, p in kws.items())
            + total*total/8)


def true_derivative(key, pos, kws):
    total = sum(pos)+sum(kws.values())
    if isinstance(key, int):
        return 2*coefficient(key, None)*pos[key]+total/4
    return 2*coefficient(None, key)*kws[key]+total/4


def marked(key, pos, kws):
    """Recognizable wrong derivative, which depends on all the arguments."""
    base = 1024*(key+1) if isinstance(key, int) else 1024*(
        100+sum(map(ord, key)))
    return base+compute(pos, kws)


def source(sig, body, bound=None):
    po, pk, dflt, var, ko, kw = sig
    parts = [bound] if bound else []
    if po:
        parts += ['p', '/']
    parts += ['a', 'b'][:pk]
    if dflt:
        parts.append('d=7.0')
    if var:
        parts.append('*args')
    elif ko:
        parts.append('*')
    if ko:
        parts.append('k' if ko == 'required' else 'k=11.0')
    if kw:
        parts.append('**kwargs')
    pos = '[%s]' % ', '.join(names_of(sig)) + (' + list(args)' if var else '')
    kws = "dict(%s)" % ', '.join((['k=k'] if ko else [])
                                 + (['**kwargs'] if kw else []))
    return ', '.join(parts), '%s(%s, %s)' % (body, pos, kws)


CODE = {}


def code(sig, kind):
    """Compiled definition of a function of the given signature."""
    if (sig, kind) not in CODE:
        params, value = source(
            sig, 'run', {'method': 'self', 'classmethod': 'self',
                         'object': 'self', 'partial': 'first'}.get(kind))
        if kind == 'lambda':
            text = 'f = lambda %s: %s' % (params, value)
        elif kind in ('method', 'classmethod', 'staticmethod'):
            text = ('class C(object):\n%s    def f(%s):\n        return %s\n'
                    'f = C().f\n' % (
                        '' if kind == 'method' else '    @%s\n' % kind,
                        params, value))
        elif kind == 'object':
            text = ('class C(object):\n    def __call__(%s):\n'
                    '        return %s\nf = C()\n' % (params, value))
        elif kind == 'partial':
            text = ('import functools\ndef g(%s):\n    return %s\n'
                    'f = functools.partial(g, 0.0)\n' % (params, value))
        elif kind == 'partial method':
            params, value = source(sig, 'run', 'self, first')
            text = ('import functools\nclass C(object):\n'
                    '    def g(%s):\n        return %s\n'
                    'f = functools.partial(C().g, 0.0)\n' % (params, value))
        elif kind in ('cached', 'decorated'):
            text = ('import functools\n%sdef f(%s):\n    return %s\n' % (
                '@functools.lru_cache(maxsize=0)\n' if kind == 'cached' else
                '@lambda f: functools.wraps(f)(lambda *a, **k: f(*a, **k))\n',
                params, value))
        else:
            text = 'def f(%s):\n    return %s\n' % (params, value)
        CODE[sig, kind] = compile(text, 'generated', 'exec')
    return CODE[sig, kind]


def make(sig, kind, log, body=None):
    """Function of the given signature."""
    def run(pos, kws):
        log.append((tuple(pos), tuple(sorted(kws.items()))))
        return (body or compute)(pos, kws)
    env = {'run': run}
    exec(code(tuple(sig), kind), env)
    return env['f']


########################################
# Derivative specifications

SPECS = ['none given', 'empty', 'all', 'first', 'not first', 'all None',
         'generator', 'infinite', 'infinite alternate', 'tuple', 'iterator',
         'kw None', 'dict items']


def specification(spec, sig, log):
    """(arguments of wrap(), set of keys with a marked derivative or None for
    all)."""
    def marker(key):
        f = make(sig, 'function', log,
                 lambda pos, kws: marked(key, pos, kws))
        return f
    kwnames = (['k'] if sig[4] else [])+(['x', 'y', 'p'] if sig[5] else [])
    kwargs = {n: marker(n) for n in kwnames}
    n = 8
    if spec == 'none given':
        return (), lambda key: False
    if spec == 'empty':
        return ([], {}), lambda key: False
    if spec == 'all':
        return ([marker(i) for i in range(n)], kwargs), lambda key: True
    if spec == 'tuple':
        return (tuple(marker(i) for i in range(2)), kwargs), (
            lambda key: not isinstance(key, int) or key < 2)
    if spec == 'iterator':
        return (iter([marker(i) for i in range(3)]),), (
            lambda key: isinstance(key, int) and key < 3)
    if spec == 'first':
        return ([marker(0)],), lambda key: key == 0
    if spec == 'not first':
        return ([None]+[marker(i) for i in range(1, n)], kwargs), (
            lambda key: key != 0)
    if spec == 'all None':
        return ([None]*n, dict.fromkeys(kwargs)), lambda key: False
    if spec == 'generator':
        return ((marker(i) if i % 2 else None for i in range(n)),), (
            lambda key: isinstance(key, int) and key % 2 == 1)
    if spec == 'infinite':
        return ((marker(i) for i in itertools.count()), kwargs), (
            lambda key: True)
    if spec == 'infinite alternate':
        return ((None if i % 2 else marker(i) for i in itertools.count()),), (
            lambda key: isinstance(key, int) and key % 2 == 0)
    if spec == 'kw None':
        return ([marker(0), None], {n: None for n in kwnames[:1]}), (
            lambda key: key == 0)
    if spec == 'dict items':
        return ([], {n: m for n, m in list(kwargs.items())[1:]}), (
            lambda key: not isinstance(key, int) and key in kwnames[1:])
    raise ValueError(spec)


FEW_SPECS = ['none given', 'all', 'not first', 'infinite alternate']


########################################
# Calls

VALUES = [1.5, -2.0, 3.0, 0.25, -5.0, 4.5, 6.0, 2.5]


def patterns(sig, small=False):
    """All the ways of passing arguments: (number of positional arguments,
    names passed by keyword), valid calls only."""
    po, pk, dflt, var, ko, kw = sig
    names = names_of(sig)
    out = []
    required = po+pk
    longest = len(names)+(2 if var else 0)
    for n in range(po, longest+1):
        left = names[n:]
        mandatory = [x for x in left if x != 'd']
        optional = (['d'] if 'd' in left else [])
        optional += ['k'] if ko == 'default' else []
        if kw:
            optional += ['x', 'y'] if not small else ['x']
            optional += ['p'] if po else []
        for k in range(len(optional)+1):
            for extra in itertools.combinations(optional, k):
                given = mandatory+list(extra)
                if ko == 'required':
                    given.append('k')
                out.append((n, given))
                if len(given) > 1:
                    out.append((n, given[::-1]))
    return out


def masks(n, small):
    """Which arguments are uncertain, and how."""
    if not small:
        return list(itertools.product('up', repeat=n))
    out = [('u',)*n]
    for i in range(n):
        out.append(('p',)*i+('u',)+('p',)*(n-1-i))
    return sorted(set(out))


SIGNATURES = {}


def bind(shape, args, kwargs):
    """(positional values, keyword values) received, and their keys in the
    order of args and kwargs."""
    shape = tuple(shape)
    if shape not in SIGNATURES:
        SIGNATURES[shape] = inspect.signature(make(shape, 'function', []))
    sig = SIGNATURES[shape]
    b = sig.bind(*args, **kwargs)
    b.apply_defaults()
    pos, kws = [], {}
    for name, p in sig.parameters.items():
        v = b.arguments[name]
        if p.kind == p.VAR_POSITIONAL:
            pos += list(v)
        elif p.kind == p.VAR_KEYWORD:
            kws.update(v)
        elif p.kind == p.KEYWORD_ONLY:
            kws[name] = v
        else:
            pos.append(v)
    index = {}
    i = 0
    for name, p in sig.parameters.items():
        if p.kind in (p.POSITIONAL_ONLY, p.POSITIONAL_OR_KEYWORD):
            if p.kind == p.POSITIONAL_OR_KEYWORD:
                index[name] = i
            i += 1
    keys = list(range(len(args)))+[index.get(n, n) for n in kwargs]
    return pos, kws, keys


def call(wrapped, sig, log, uses_marker, pattern, mask, kind, shift):
    """One call of the wrapped function, compared with the reference."""
    n, given = pattern
    total = n+len(given)
    values = [VALUES[(i+shift) % len(VALUES)] for i in range(total)]
    z = ufloat(0, 1, tag='z')
    actual = []
    variables = []
    for v, m in zip(values, mask):
        if m == 'p':
            actual.append(v)
            variables.append(None)
            continue
        x = ufloat(v, 0.0 if kind == 'exact' else 0.5)
        variables.append(x)
        actual.append(x-z if kind == 'correlated' else x)
    args, kwargs = actual[:n], dict(zip(given, actual[n:]))
    pargs, pkwargs = values[:n], dict(zip(given, values[n:]))
    pos, kws, keys = bind(sig, pargs, pkwargs)
    ref = compute(pos, kws)
    saved = list(kwargs.items())
    before = list(args)
    del log[:]
    got = wrapped(*args, **kwargs)
    require(list(kwargs.items()) == saved and all(
        x is y for (_, x), (_, y) in zip(kwargs.items(), saved))
        and all(x is y for x, y in zip(args, before)), 'modified arguments')
    for p, k in log:
        for v in p+tuple(v for _, v in k):
            require(type(v) is float, 'the function received a %s',
                    type(v).__name__)
    require(log, 'the function was not called')
    if 'u' not in mask:
        require(type(got) is float and got == ref and len(log) == 1,
                'value %r instead of %r', got, ref)
        return 'plain'
    require(isinstance(got, UFloat), 'result is a %s', type(got).__name__)
    require(got.nominal_value == ref, 'nominal value %r instead of %r',
            got.nominal_value, ref)
    ders = got.derivatives
    expected_z = 0.0
    count = 0
    for key, x in zip(keys, variables):
        if x is None:
            continue
        count += 1
        if uses_marker(key):
            d = marked(key, pos, kws)
            require(ders[x] == d, 'derivative with respect to argument %r is '
                    '%r instead of %r (supplied)', key, ders[x], d)
        else:
            d = true_derivative(key, pos, kws)
            require(close(ders[x], d, 1e-6, 1+abs(ref)),
                    'derivative with respect to argument %r is %r instead of '
                    '%r (numerical)', key, ders[x], d)
        expected_z -= d
    if kind == 'correlated':
        count += 1
        require(close(ders[z], expected_z, 1e-6, 1+abs(ref)),
                'derivative of correlated arguments: %r instead of %r',
                ders[z], expected_z)
    require(len(ders) == count, 'depends on %d variables instead of %d',
            len(ders), count)
    return 'uncertain'


def check_history(case):
    sig, kind, spec, calls = case[1:]
    log = []
    f = make(sig, kind, log)
    spec_args, uses_marker = specification(spec, sig, log)
    wrapped = wrap(f, *spec_args)
    outcome = None
    for shift, (pattern, mask, how) in enumerate(calls):
        outcome = call(wrapped, sig, log, uses_marker, pattern, mask, how, shift)
    return outcome


KINDS = ['function', 'lambda', 'method', 'classmethod', 'staticmethod',
         'object', 'partial', 'partial method', 'cached', 'decorated']


def run_single(task, ctx):
    """Histories of one call: all patterns and masks."""
    _, tier, sig, kind = task
    few = kind not in ('function', 'method') and tier == 'quick'
    specs = FEW_SPECS if few else SPECS
    fewest = kind in KINDS[5:] and tier == 'quick'
    if fewest:
        specs = ['not first', 'infinite alternate']
    if kind in ('cached', 'decorated'):
        # (their parameters are not known: derivatives are supplied for
        # arguments that are given by position or by name, but not for both)
        specs = ['none given', 'all None'][:1 if fewest else 2]
    for spec in specs:
        for pattern in patterns(sig, few):
            n = pattern[0]+len(pattern[1])
            small = n > (1 if fewest else 3 if tier == 'quick' else 5)
            for mask in masks(n, small):
                for how in (['var', 'correlated', 'exact'] if not small
                            else ['correlated']):
                    if 'u' not in mask and how == 'correlated':
                        continue
                    yield ['history', sig, kind, spec,
                           [(pattern, mask, how)]]


def run_pairs(task, ctx):
    """Histories of two calls (three for few patterns)."""
    _, tier, sig, kind = task
    pats = patterns(sig, True)
    big = len(pats) > 12 and tier == 'quick'
    for spec in SPECS:
        for p, q in itertools.product(pats, repeat=2):
            if big and p is not pats[0] and q is not pats[-1]:
                continue
            mp, mq = ('u',)*(p[0]+len(p[1])), ('u',)*(q[0]+len(q[1]))
            yield ['history', sig, kind, spec,
                   [(p, mp, 'var'), (q, mq, 'var')]]
            if len(mp) > 1 and not big:
                yield ['history', sig, kind, spec,
                       [(p, ('p',)+mp[1:], 'var'), (q, mq, 'correlated')]]
        if len(pats) <= (6 if tier == 'quick' else 12):
            for h in itertools.product(pats, repeat=3):
                yield ['history', sig, kind, spec,
                       [(p, ('u',)*(p[0]+len(p[1])), 'var') for p in h]]


########################################
# Calls that are not valid, exceptions, result types

def check_invalid(case):
    """The wrapped function refuses the same calls, with the same error."""
    sig, n, given, uncertain = case[1:]
    log = []
    f = make(sig, 'function', log)
    wrapped = wrap(f)
    values = VALUES[:n+len(given)]
    args = values[:n]
    kwargs = dict(zip(given, values[n:]))
    try:
        ref = f(*args, **kwargs)
        failed = None
    except TypeError as exc:
        failed = exc
    if uncertain:
        args = [ufloat(v, 0.5) for v in args]
        kwargs = {k: ufloat(v, 0.5) for k, v in kwargs.items()}
    try:
        got = wrapped(*args, **kwargs)
    except TypeError as exc:
        require(failed is not None and str(exc) == str(failed),
                'TypeError: %s instead of %s', exc, failed)
        return 'refused call'
    require(failed is None, 'call accepted instead of TypeError')
    require(getattr(got, 'nominal_value', got) == ref, 'value %r', got)
    return 'accepted call'


def run_invalid(task, ctx):
    _, tier, sig = task
    for n in range(6):
        for k in range(4):
            for given in itertools.combinations(['p', 'a', 'b', 'd', 'k', 'x'],
                                                k):
                for uncertain in (False, True):
                    if uncertain and n+k == 0:
                        continue
                    yield ['invalid', sig, n, given, uncertain]


class Custom(Exception):
    pass


def check_exception(case):
    """Exceptions of the function, or of its derivatives, propagate."""
    where, exc_name, uncertain, by_name = case[1:]
    exc_type = {'Custom': Custom, 'ValueError': ValueError,
                'KeyError': KeyError, 'IndexError': IndexError,
                'TypeError': TypeError, 'StopIteration': StopIteration,
                'ZeroDivisionError': ZeroDivisionError,
                'KeyboardInterrupt': KeyboardInterrupt,
                'AttributeError': AttributeError}[exc_name]
    error = exc_type('message')
    active = [True]

    def f(x, y=2.0):
        if active[0] and where == 'function':
            raise error
        if active[0] and where == 'shifted' and x != 1.5:
            raise error
        return x*x*y

    def dfdx(x, y=2.0):
        if active[0] and where == 'derivative':
            raise error
        return 2*x*y
    wrapped = wrap(f, [None if where == 'shifted' else dfdx])
    x = ufloat(1.5, 0.5) if uncertain else 1.5
    call = (lambda: wrapped(x=x)) if by_name else (lambda: wrapped(x))
    expected = where == 'function' or uncertain
    try:
        call()
    except exc_type as exc:
        require(exc is error and expected, 'unexpected %r', exc)
    except BaseException as exc:
        require(False, '%r instead of %r', exc, error)
    else:
        require(not expected, 'no exception')
    # The wrapped function still works
    active[0] = False
    got = call()
    require(getattr(got, 'nominal_value', got) == 4.5 and (
        not uncertain or close(got.derivatives[x], 6, 1e-6)),
            'afterwards: %r', got)
    return 'exception'


def check_return(case):
    """Any returned object, without uncertainty; real numbers, with it."""
    name, uncertain = case[1:]
    objects = {'None': None, 'str': 'text', 'list': [1, 2], 'object': object(),
               'complex': 1j, 'int': 3, 'bool': True,
               'array': numpy.arange(3), 'tuple': (1, 2),
               'float64': numpy.float64(2.5), 'float32': numpy.float32(0.5),
               'int64': numpy.int64(4), 'float': 1.25}
    value = objects[name]
    wrapped = wrap(lambda x, *rest: value, [lambda x, *rest: 3.0])
    if not uncertain:
        require(wrapped(1.0) is value and wrapped('a', [2]) is value,
                'returned another object')
        return 'any result'
    x = ufloat(1, 0.5)
    got = wrapped(x)
    require(isinstance(got, UFloat) and got.nominal_value == value and
            got.derivatives[x] == 3.0 and type(got.nominal_value) is float,
            'result %r', got)
    return 'number'


def check_arguments(case):
    """Non-scalar arguments are passed unchanged (and not differentiated)."""
    kind, position, by_name = case[1:]
    obj = {'str': 'text', 'list': [1, 2], 'None': None, 'dict': {'a': 1},
           'object': object(), 'int': 3, 'array': numpy.arange(3)}[kind]
    seen = []

    def first(obj, x):
        seen.append((obj, x))
        return 2*x

    def last(x, obj):
        seen.append((obj, x))
        return 2*x
    f = first if position == 'first' else last
    for spec in ([], [None], [None, None],
                 [None, lambda obj, x: 2.0] if f is first
                 else [lambda x, obj: 2.0]):
        wrapped = wrap(f, spec)
        x = ufloat(4, 0.5)
        del seen[:]
        if by_name:
            got = wrapped(obj=obj, x=x)
        else:
            got = wrapped(obj, x) if f is first else wrapped(x, obj)
        require(got.nominal_value == 8 and
                close(got.derivatives[x], 2, 1e-7), 'result %r', got)
        require(seen and all(o is obj and type(v) is float for o, v in seen),
                'received %r', seen)
    return 'other arguments'


FUNCTIONS = {
    'square': (lambda x: x*x, lambda x: 2*x),
    'cube': (lambda x: x**3, lambda x: 3*x*x),
    'inverse': (lambda x: 1/x, lambda x: -1/x/x),
    'exp': (math.exp, math.exp),
    'sin': (math.sin, math.cos),
    'log': (lambda x: math.log(abs(x)), lambda x: 1/x),
    'linear': (lambda x: 3*x+1, lambda x: 3.0),
    'constant': (lambda x: 5.0, lambda x: 0.0),
    'atan': (math.atan, lambda x: 1/(1+x*x)),
}


# Functions that behave in the same way at all scales
SCALED = {
    'inverse': FUNCTIONS['inverse'],
    'log': FUNCTIONS['log'],
    'proportional': (lambda x: 3*x, lambda x: 3.0),
    'sqrt': (lambda x: math.sqrt(abs(x)),
             lambda x: math.copysign(0.5, x)/math.sqrt(abs(x))),
    'power': (lambda x: abs(x)**1.25,
              lambda x: math.copysign(1.25, x)*abs(x)**0.25),
}


def check_numerical(case):
    """Accuracy of the numerical derivatives."""
    name, v, how = case[1:]
    f, df = SCALED[name] if case[0] == 'scaled' else FUNCTIONS[name]
    x = ufloat(v, abs(v)/10)
    if how == 'positional':
        got = wrap(f)(x)
    elif how == 'None':
        got = wrap(f, [None])(x)
    elif how == 'second':
        got = wrap(lambda y, x: f(x)+y)(0.0, x)
    elif how == 'by name':
        def g(y=0.0, x=0.0):
            return f(x)
        got = wrap(g)(x=x)
    elif how == 'var-positional':
        got = wrap(lambda *args: f(args[2]))(1, 2, x)
    elif how == 'var-keyword':
        got = wrap(lambda **k: f(k['z']))(y=2, z=x)
    elif how == 'keyword-only':
        exec('def g(*, x): return f(x)', {'f': f}, locals_ := {})
        got = wrap(locals_['g'], [], {'x': None})(x=x)
    d = df(v)
    # (Central difference with a relative step of 1.5e-8: accuracy limited by
    # rounding errors in f and by its third derivative)
    scale = abs(f(v))/max(abs(v), 1e-8) + abs(d)*max(1, abs(v))
    if case[0] == 'scaled':
        scale = abs(f(v)/v)
    elif not v:
        scale = 1
    require(abs(got.derivatives[x]-d) <= 1e-6*max(scale, abs(d)),
            'numerical derivative %r instead of %r', got.derivatives[x], d)
    return 'accuracy'


def run_misc(task, ctx):
    tier = task[1]
    for where, e, u, b in itertools.product(
            ['function', 'derivative', 'shifted'],
            ['Custom', 'ValueError', 'KeyError', 'IndexError', 'TypeError',
             'StopIteration', 'ZeroDivisionError', 'KeyboardInterrupt',
             'AttributeError'], (True, False), (True, False)):
        yield ['exception', where, e, u, b]
    for name in ['None', 'str', 'list', 'object', 'complex', 'int', 'bool',
                 'array', 'tuple', 'float64', 'float32', 'int64', 'float']:
        yield ['return', name, False]
        if name in ('int', 'bool', 'float64', 'float32', 'int64', 'float'):
            yield ['return', name, True]
    for kind, position, by_name in itertools.product(
            ['str', 'list', 'None', 'dict', 'object', 'int', 'array'],
            ['first', 'last'], (True, False)):
        yield ['arguments', kind, position, by_name]
    for name, how in itertools.product(FUNCTIONS, [
            'positional', 'None', 'second', 'by name', 'var-positional',
            'var-keyword', 'keyword-only']):
        for v in [1e-3, 0.1, 0.5, 1.0, 2.0, 10.0, 30.0, 1e3, 1e6]:
            for sign in (1, -1):
                if name in ('exp', 'sin') and v > 30:
                    continue
                yield ['numerical', name, sign*v, how]
    for name, how in itertools.product(SCALED, [
            'positional', 'None', 'second', 'by name', 'var-positional',
            'var-keyword', 'keyword-only']):
        for e in range(-280, 281, 20 if tier == 'quick' else 2):
            for m in (1.25, -1.25, 1.0, 1.75):
                if abs(e) > {'inverse': 140, 'power': 200}.get(name, 300):
                    continue
                yield ['scaled', name, float('%re%d' % (m, e)), how]
    for name in FUNCTIONS:
        if name not in ('inverse', 'log'):
            for how in ('positional', 'by name', 'keyword-only'):
                yield ['numerical', name, 0.0, how]
    for sig in signatures():
        for kind in ('function', 'method', 'object', 'partial'):
            for pattern in patterns(sig):
                for integers in (False, True):
                    yield ['partial', sig, kind, pattern, integers]
    # The docstring and name of the wrapped function
    yield ['metadata']
    for name in sorted(n for n in dir(math) if callable(getattr(math, n))
                       and not n.startswith('_')):
        yield ['builtin', name]


def check_partial(case):
    """uncertainties.core.partial_derivative(), used in the derivatives that
    are supplied to wrap()."""
    _, sig, kind, (n, given), integers = case
    log = []
    f = make(sig, kind, log)
    values = [VALUES[i % len(VALUES)] for i in range(n+len(given))]
    if integers:
        values = [int(4*v) for v in values]
    pargs, pkwargs = values[:n], dict(zip(given, values[n:]))
    pos, kws, keys = bind(sig, pargs, pkwargs)
    for ref, key in zip(list(range(n))+list(given), keys):
        saved = list(pargs), list(pkwargs.items())
        derivative = core.partial_derivative(f, ref)
        for _ in range(2):
            del log[:]
            got = derivative(*pargs, **pkwargs)
            d = true_derivative(key, pos, kws)
            require(close(got, d, 1e-6, 1+abs(compute(pos, kws))),
                    'partial derivative for %r: %r instead of %r', ref, got, d)
            require((pargs, list(pkwargs.items())) == saved,
                    'modified arguments')
            require(log, 'the function was not called')
            for p, k in log:
                k = dict(k)
                for i, (x, y) in enumerate(zip(p, pos)):
                    require(i == key or x == y and type(x) is type(y),
                            'argument %r is %r instead of %r', i, x, y)
                for name in k:
                    require(name == key or k[name] == kws[name],
                            'argument %s is %r', name, k[name])
    return 'partial derivative'


def check_metadata(case):
    def f(x):
        "Documentation of f."
        return x
    g = wrap(f)
    require('Documentation of f.' in g.__doc__, 'documentation is lost')
    # Wrapping twice, and reusing the same derivatives for two functions
    h = wrap(wrap(f))
    x = ufloat(2, 0.5)
    require(close(h(x).derivatives[x], 1.0, 1e-7), 'wrapped twice: %r', h(x))
    ders = [lambda x: 9.0]
    one, two = wrap(f, ders), wrap(lambda x: 2*x, ders)
    require(one(x).derivatives[x] == 9.0 and two(x).derivatives[x] == 9.0
            and len(ders) == 1, 'shared derivatives')
    kw = {'z': None}
    k = wrap(lambda **k: k['z'], [], kw)
    k(z=x, y=x)
    require(kw == {'z': None}, 'dictionary of derivatives modified: %r', kw)
    return 'metadata'


def check_builtin(case):
    """Functions of math (most have no signature)."""
    f = getattr(math, case[1])
    for n in (1, 2):
        for base in (0.3, 1.25):
            args = [base]+[0.7]*(n-1)
            try:
                ref = f(*args)
            except (TypeError, ValueError):
                continue
            try:
                wrapped = wrap(f)
            except Exception as exc:
                require(False, 'cannot be wrapped: %r', exc)
            got = wrapped(*args)
            require(got == ref and type(got) is type(ref), 'value %r', got)
            if not isinstance(ref, (float, int)) or isinstance(ref, tuple):
                continue
            x = ufloat(base, 0.125)
            try:
                num = (f(*([base*1.000001]+args[1:]))
                       - f(*([base*0.999999]+args[1:])))/base/2e-6
            except (TypeError, ValueError):
                continue
            got = wrapped(*([x]+args[1:]))
            require(got.nominal_value == ref and
                    close(got.derivatives[x], num, 1e-4, 1.0),
                    '%r, derivative %r instead of %r', got,
                    got.derivatives[x], num)
    return 'builtin'


########################################
# Any number of arguments

def weighted(*args):
    return sum((i+1)*x for i, x in enumerate(args))


MANY_SPECS = {
    # Specification, True if the derivative of argument i is the marked one
    'none': (lambda: [], lambda i: False),
    'three': (lambda: [marker(i) for i in range(3)], lambda i: i < 3),
    'tuple': (lambda: (marker(0), None, marker(2), None, marker(4)),
              lambda i: i in (0, 2, 4)),
    'generator': (lambda: (marker(i) for i in range(6)), lambda i: i < 6),
    'infinite': (lambda: map(marker, itertools.count()), lambda i: True),
    'infinite None': (lambda: (marker(i) if i % 3 else None
                               for i in itertools.count()),
                      lambda i: i % 3 != 0),
    'all None': (lambda: itertools.repeat(None), lambda i: False),
}


def marker(i):
    return lambda *args: 1000.0+i+len(args)*100000.0


def check_many(case):
    _, spec, counts, which = case
    derivatives, is_marked = MANY_SPECS[spec]
    f = wrap(weighted, derivatives())
    for n in counts:
        values = [0.25*((5*i) % 7-3)+0.125 for i in range(n)]
        args, variables = list(values), {}
        for i in {'all': range(n), 'last': [n-1], 'odd': range(1, n, 2),
                  'first': [0]}[which]:
            args[i] = variables[i] = ufloat(values[i], 0.5)
        got = f(*args)
        if not variables:
            require(got == weighted(*values), 'value %r', got)
            continue
        require(got.nominal_value == weighted(*values), 'value %r of %d '
                'arguments', got.nominal_value, n)
        ders = got.derivatives
        require(len(ders) == len(variables), 'variables')
        for i, x in variables.items():
            if is_marked(i):
                require(ders[x] == marker(i)(*values), 'derivative %d of %d: '
                        '%r', i, n, ders[x])
            else:
                require(close(ders[x], i+1.0, 1e-5), 'derivative %d of %d: %r',
                        i, n, ders[x])
    return 'many'


def check_namesakes(case):
    """Functions with the same name (lambda functions...) are independent."""
    _, calls = case
    functions = [wrap(lambda x, y=1., z=1., k=k: (k+1)*x+10*(k+1)*y +
                      100*(k+1)*z) for k in range(3)]
    for k, how in calls:
        x = ufloat(0.5, 0.25)
        got, c = {'x': lambda f: (f(x), 1), 'x=': lambda f: (f(x=x), 1),
                  'y': lambda f: (f(2., x), 10),
                  'y=': lambda f: (f(2., y=x), 10),
                  'z=': lambda f: (f(2., z=x), 100)}[how](functions[k])
        require(close(got.derivatives[x], c*(k+1.0), 1e-6),
                'derivative %r instead of %r', got.derivatives[x], c*(k+1.0))
    return 'namesakes'


def run_many(task, ctx):
    _, tier = task
    for spec in MANY_SPECS:
        for which in 'all', 'last', 'odd', 'first':
            for n in list(range(1, 35))+[64, 65, 130]:
                yield ['many', spec, [n], which]
            for counts in itertools.permutations([1, 2, 4, 7, 20], 3):
                yield ['many', spec, counts, which]
    events = list(itertools.product(range(3), ['x', 'x=', 'y', 'y=', 'z=']))
    for calls in itertools.product(events, repeat=2):
        yield ['namesakes', calls]
    if tier == 'thorough':
        for calls in itertools.product(events, repeat=3):
            yield ['namesakes', calls]


RUN = {'many': run_many,
       'single': run_single, 'pairs': run_pairs, 'invalid': run_invalid,
       'misc': run_misc}
CHECK = {'many': check_many, 'namesakes': check_namesakes,
         'history': check_history, 'invalid': check_invalid,
         'exception': check_exception, 'scaled': check_numerical,
         'return': check_return,
         'arguments': check_arguments, 'numerical': check_numerical,
         'metadata': check_metadata, 'partial': check_partial, 'builtin': check_builtin}


def tasks(tier):
    out = []
    for sig in signatures():
        for kind in KINDS:
            out.append(['single', tier, sig, kind])
            if kind in ('function', 'method') or tier == 'thorough':
                out.append(['pairs', tier, sig, kind])
        out.append(['invalid', tier, sig])
    return out+[['misc', tier], ['many', tier]]


def run_task(task, ctx):
    case = None
    for case in RUN[task[0]](task, ctx):
        with ctx.case(case):
            ctx.outcome(CHECK[case[0]](case) or case[0])
        ctx.state(json.dumps(case))
        ctx.traces += 1
        ctx.transitions += len(case[4]) if case[0] == 'history' else 1
        if ctx.full:
            return
    if case is not None:
        ctx.sample(case)


def replay(case, ctx):
    CHECK[case[0]](case)
