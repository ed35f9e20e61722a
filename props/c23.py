"""C23: calculations and readings leave nothing behind.

Explicit-state exploration on the real code, where a state is a process:
every operation of a catalogue is executed in a fork of a process in which
nothing has been done yet, and what every operation gives *after* it (in a
fork of that fork) is compared with what it gives when nothing was done
before (except the assignments).  Probes (contents of all the objects, state
of the interpreter, numbers still in memory) are operations like the others.
"""
import copy
import decimal
import functools
import gc
import io
import locale
import math
import operator
import os
import pickle
import random
import re
import signal
import sys
import threading
import traceback
import warnings
from decimal import Decimal
from fractions import Fraction

import numpy

import uncertainties
from uncertainties import ufloat, ufloat_fromstr, UFloat, umath, unumpy
from uncertainties import (covariance_matrix, correlation_matrix,
                           correlated_values, correlated_values_norm, wrap)
from uncertainties import core
from uncertainties.unumpy import ulinalg

from mc.run import require

ID = 'C23'
LEVEL = 'model_checking'
RULE = ('a state is the process reached by a history of operations (forks are '
        'used for coming back to it); a transition is one operation of the '
        'catalogue executed on the real objects; a trace is one complete '
        'history whose last operation gives what it gives in a process where '
        'only the assignments of the history were made')
ASSUMPTIONS = [
    'hidden states are created and observed by operations like those of the '
    'catalogue (which uses equal, similar and reallocated numbers on purpose)',
    'differences of values under 1e-9 are rounding errors (sums calculated '
    'in a different order)']


# Objects on which the operations are performed


class World(object):

    def __init__(self):
        self.a = ufloat(3, 0.5, 'a')
        self.b = ufloat(-2, 0.25)
        self.c = ufloat(3, 0.5, 'a')  # Like a, but independent
        self.d = ufloat(3, 0.125)
        self.z = ufloat(2, 0)
        self.p = ufloat(0.25, 0.0625)
        self.r = self.a*self.b+self.a
        self.s = self.c*self.b+self.c  # Like r, but independent
        self.A = numpy.array([self.a, self.b, self.r])
        self.B = numpy.array([self.c, self.b, self.s])
        self.D = numpy.array([self.d, 1, self.p], dtype=object)
        self.F = numpy.array([3., -2., 0.5])
        self.S = numpy.array([0.5, 0.25, 0.125])
        self.I = numpy.array([3, -2, 1])
        self.M = unumpy.matrix([[self.a, self.b], [self.d, self.p]])
        self.N = unumpy.matrix([[self.c, self.b], [self.d, self.p]])
        self.P = numpy.array([[1., 2.], [3., 5.]])
        self.Z = numpy.array([[self.a, self.a], [self.a, self.a]])
        self.cov = [[1., 0.5], [0.5, 2.]]
        self.cov2 = numpy.array([[1., 0.5], [0.5, 2.]])
        self.nom = [1., 2.]
        self.tags = ['t', 'u']
        self.pairs = [(1., 0.5), (2., 0.25)]
        self.corr = numpy.array([[1., 0.5], [0.5, 1.]])
        self.numbers = [self.a, self.b, self.r]
        self.text = '1.25+/-0.5'
        self.options = {'scale': 2.}

    def label(self, v):
        for name in 'abcdzp':
            if v is getattr(self, name):
                return name
        return 'new %s %s %s' % (num(v.nominal_value), num(v.std_dev),
                                 v.tag)


def num(x):
    if isinstance(x, float):
        return '%.15g' % x
    return repr(x)


def show(x, w):
    """Text that describes any result."""
    if isinstance(x, UFloat):
        terms = sorted((w.label(v), num(float(d)))
                       for v, d in x.derivatives.items())
        return '<%s %s +/- %s %s%s>' % (
            type(x).__name__, num(x.nominal_value), num(x.std_dev), terms,
            ' tag %r' % x.tag if hasattr(x, 'tag') else '')
    if isinstance(x, numpy.ndarray):
        return '<%s %s %s %s>' % (type(x).__name__, x.dtype, x.shape,
                                  [show(e, w) for e in x.flat])
    if isinstance(x, (list, tuple)):
        return '<%s %s>' % (type(x).__name__, [show(e, w) for e in x])
    if isinstance(x, dict):
        return '<%s %s>' % (type(x).__name__, sorted(
            (show(k, w), show(v, w)) for k, v in x.items()))
    if isinstance(x, (float, numpy.floating)):
        return '<%s %s>' % (type(x).__name__, num(float(x)))
    if callable(x):
        return '<callable>'
    return repr(x)


# Operations

OPS = {}  # {name: function of the world}
FAMILY = {}


def op(family, name, func):
    name = '%s %s' % (family, name)
    assert name not in OPS, name
    OPS[name] = func
    FAMILY[name] = family


def add_operators():
    table = {'+': operator.add, '-': operator.sub, '*': operator.mul,
             '/': operator.truediv, '//': operator.floordiv,
             '%': operator.mod, '**': operator.pow}
    for s, f in table.items():
        op(s, 'a, b', lambda w, f=f: f(w.a, w.b))
        op(s, 'c, b', lambda w, f=f: f(w.c, w.b))
        op(s, 'd, 2', lambda w, f=f: f(w.d, 2))
        op(s, 'a, 2.', lambda w, f=f: f(w.a, 2.))
        op(s, '2, d', lambda w, f=f: f(2, w.d))
        op(s, 'array', lambda w, f=f: f(w.A, w.B))
    for s in '/', '//', '%', '**':
        op(s, 'refused', lambda w, f=table[s]: f(0*w.a, w.b-w.b))
    op('+', 'text', lambda w: w.a+'x')
    op('**', 'complex', lambda w: w.b**0.5)
    table = {'neg': operator.neg, 'abs': abs, 'pos': operator.pos,
             'bool': bool, 'float': float, 'hash': lambda x: hash(x) and None}
    for s, f in table.items():
        op(s, 'a', lambda w, f=f: f(w.a))
        op(s, 'c', lambda w, f=f: f(w.c))
        op(s, 'd', lambda w, f=f: f(w.d))
        op(s, 'r', lambda w, f=f: f(w.r))
    table = {'==': operator.eq, '!=': operator.ne, '<': operator.lt,
             '<=': operator.le, '>': operator.gt, '>=': operator.ge}
    for s, f in table.items():
        op(s, 'a, a', lambda w, f=f: f(w.a, w.a))
        op(s, 'a, c', lambda w, f=f: f(w.a, w.c))
        op(s, 'r, s', lambda w, f=f: f(w.r, w.s))
        op(s, 'r, 3', lambda w, f=f: f(w.r, 3))
        op(s, 'arrays', lambda w, f=f: f(w.A, w.B))
    op('<', 'refused', lambda w: w.a < 'x')


def add_readings():
    for n in 'acdrs':
        for k in ('nominal_value', 'n', 'std_dev', 's', 'derivatives'):
            op('read', n+' '+k, lambda w, n=n, k=k: getattr(
                getattr(w, n), k))
        op('read', n+' components', lambda w, n=n: getattr(
            w, n).error_components())
        op('read', n+' functions', lambda w, n=n: (
            uncertainties.nominal_value(getattr(w, n)),
            uncertainties.std_dev(getattr(w, n))))
        op('read', n+' score', lambda w, n=n: getattr(w, n).std_score(1))
    op('read', 'tag', lambda w: (w.a.tag, w.b.tag, w.c.tag))
    op('read', 'no score', lambda w: w.z.std_score(1))
    op('read', 'no attribute', lambda w: w.r.tag)
    op('read', 'floats', lambda w: (uncertainties.nominal_value(1.5),
                                    uncertainties.std_dev(1.5)))
    op('read', 'old', lambda w: (w.a.std_dev(), w.r.std_dev()))
    for n in 'acdrz':
        for k, f in (('copy', copy.copy), ('deepcopy', copy.deepcopy)):
            op('copy', k+' '+n, lambda w, n=n, f=f: (
                f(getattr(w, n)) - getattr(w, n)))
        op('copy', 'pickle '+n, lambda w, n=n: pickle.loads(
            pickle.dumps(getattr(w, n), 2)))
    op('copy', 'list', lambda w: copy.deepcopy(w.numbers))
    op('copy', 'array', lambda w: copy.deepcopy(w.A))
    op('copy', 'pickle list', lambda w: pickle.loads(
        pickle.dumps([w.numbers, w.A, w.M])))


SPECS = ['', '.1u', '.3f', 'e', 'L', 'P', 'S', '%', '20', '<+25.2ueLS', 'p']


def add_texts():
    for n in 'acdrs':
        op('text', n+' str', lambda w, n=n: str(getattr(w, n)))
        op('text', n+' repr', lambda w, n=n: repr(getattr(w, n)))
        for spec in SPECS:
            op('format', n+' '+spec, lambda w, n=n, spec=spec: format(
                getattr(w, n), spec))
    op('format', 'method', lambda w: w.a.format('.1u'))
    op('format', 'nan', lambda w: '%s %s' % (
        ufloat(float('nan'), 0.5), ufloat(3, float('nan'))))
    op('format', 'large', lambda w: '{:.1u} {:L}'.format(w.a*1e300, w.a*1e30))
    op('format', 'refused', lambda w: format(w.a, 'zz'))
    op('format', 'refused LP', lambda w: format(w.a, 'LP'))
    op('format', 'array', lambda w: (str(w.A), repr(w.B), str(w.M)))
    for t in ('3+/-0.5', '3.0(5)', '(3.0+/-0.5)e0', '3.0', '3(nan)', 'nan',
              '3.0±0.5', '(3.00 ± 0.50) × 10²', '1.5(2.)e3'):
        op('parse', t, lambda w, t=t: ufloat_fromstr(t))
        op('parse', t+' tag', lambda w, t=t: ufloat_fromstr(t, 'x'))
    for t in ('', 'x', '3+-2', '3(2', '(3+/-2', '3+/-x', '3(-2)'):
        op('parse', 'refused '+t, lambda w, t=t: ufloat_fromstr(t))


def add_creation():
    forms = {
        'two': lambda: ufloat(3, 0.5), 'tag': lambda: ufloat(3, 0.5, 'a'),
        'tag2': lambda: ufloat(3, 0.5, tag='b'), 'int': lambda: ufloat(3, 1),
        'true': lambda: ufloat(True, True), 'dec': lambda: ufloat(
            Decimal(3), Decimal('0.5')), 'frac': lambda: ufloat(
                Fraction(3), Fraction(1, 2)),
        'old tuple': lambda: ufloat((3, 0.5)),
        'old tuple tag': lambda: ufloat((3, 0.5), 'b'),
        'old text': lambda: ufloat('3+/-0.5'),
        'old text tag': lambda: ufloat('3+/-0.5', 'b'),
        'nan': lambda: ufloat(3, float('nan')),
        'refused negative': lambda: ufloat(3, -0.5),
        'refused text': lambda: ufloat('x', 1),
        'refused none': lambda: ufloat(None, 1),
        'refused one': lambda: ufloat(3),
        'refused complex': lambda: ufloat(3j, 1),
    }
    for k, f in forms.items():
        op('ufloat', k, lambda w, f=f: f())
    op('correlated', 'lists', lambda w: correlated_values(w.nom, w.cov))
    op('correlated', 'array', lambda w: correlated_values(w.nom, w.cov2))
    op('correlated', 'tags', lambda w: correlated_values(
        w.nom, w.cov, w.tags))
    op('correlated', 'matrix', lambda w: covariance_matrix(
        correlated_values((1, 2), numpy.asmatrix(w.cov2))))
    op('correlated', 'null', lambda w: correlated_values(
        [1, 2], [[0, 0], [0, 0]]))
    op('correlated', 'norm', lambda w: correlated_values_norm(
        w.pairs, w.corr))
    op('correlated', 'norm tags', lambda w: correlated_values_norm(
        w.pairs, w.corr, w.tags))
    op('correlated', 'refused', lambda w: correlated_values([1], w.cov))
    op('correlated', 'refused text', lambda w: correlated_values(
        ['x', 'y'], w.cov))
    op('covariance', 'abr', lambda w: covariance_matrix(w.numbers))
    op('covariance', 'cbs', lambda w: covariance_matrix([w.c, w.b, w.s]))
    op('covariance', 'array', lambda w: covariance_matrix(w.A))
    op('covariance', 'refused', lambda w: covariance_matrix([w.a, 1]))
    op('correlation', 'abr', lambda w: correlation_matrix(w.numbers))
    op('correlation', 'cbs', lambda w: correlation_matrix([w.c, w.b, w.s]))
    op('correlation', 'refused', lambda w: correlation_matrix([w.a, 1]))
    op('correlation', 'exact', lambda w: correlation_matrix([w.a, w.z]))


def add_umath():
    args = {'acos': 'p', 'asin': 'p', 'atanh': 'p', 'lgamma': 'a',
            'factorial': None}
    for f in sorted(umath.__all__):
        func = getattr(umath, f)
        if f in ('atan2', 'copysign', 'fmod', 'hypot', 'pow', 'log'):
            op(f, 'a, p', lambda w, f=func: f(w.a, w.p))
            op(f, 'c, p', lambda w, f=func: f(w.c, w.p))
            op(f, 'd, 2', lambda w, f=func: f(w.d, 2))
            op(f, '3, p', lambda w, f=func: f(3., w.p))
            op(f, 'refused', lambda w, f=func: f(w.a, 'x'))
        elif f == 'ldexp':
            op(f, 'a', lambda w, f=func: (f(w.a, 2), f(w.c, -1), f(3., 2)))
        elif f == 'fsum':
            op(f, 'abr', lambda w, f=func: f(w.numbers))
            op(f, 'array', lambda w, f=func: f(w.B))
            op(f, 'floats', lambda w, f=func: f([1., 2.]))
            op(f, 'refused', lambda w, f=func: f([w.a, 'x']))
        elif f == 'factorial':
            op(f, '3', lambda w, f=func: f(3))
            op(f, 'a', lambda w, f=func: f(w.a))
        else:
            for n in ('p', 'd', 'a', 'c', 'b'):
                op(f, n, lambda w, f=func, n=n: f(getattr(w, n)))
            op(f, 'float', lambda w, f=func: f(0.25))
    op('log', 'a', lambda w: umath.log(w.a))
    op('log', 'b', lambda w: umath.log(w.b))


def linear(x, y=1, scale=1.):
    return (x+2*y)*scale


def square(x, y=1, scale=1.):
    return x*x*y*scale


def array_func(x):
    return 2.*numpy.asarray(x)


def failing(x, y=1):
    raise RuntimeError('no value')


def add_wrap():
    wraps = {
        'linear': lambda: wrap(linear),
        'linear d': lambda: wrap(linear, [lambda x, y=1, scale=1.: scale]),
        'linear 7': lambda: wrap(linear, [lambda *a, **k: 7., None]),
        'square': lambda: wrap(square),
        'square k': lambda: wrap(square, [], {
            'scale': lambda *a, **k: 5.}),
        'failing': lambda: wrap(failing),
        'failing d': lambda: wrap(linear, [failing, failing]),
    }
    for k, f in wraps.items():
        op('wrap', k+' a', lambda w, f=f: f()(w.a))
        op('wrap', k+' a, b', lambda w, f=f: f()(w.a, w.b))
        op('wrap', k+' c, y=b', lambda w, f=f: f()(w.c, y=w.b))
        op('wrap', k+' d, options', lambda w, f=f: f()(
            w.d, 2, **w.options))
        op('wrap', k+' scale=p', lambda w, f=f: f()(3., scale=w.p))
        op('wrap', k+' floats', lambda w, f=f: f()(3., 2.))
        op('wrap', k+' twice', lambda w, f=f: (lambda g: [
            g(w.a), g(w.a, w.b), g(w.b, scale=w.p), g(w.d)])(f()))

    def derivatives():
        dicts = {'scale': lambda *a, **k: 5.}
        lists = [None, lambda *a, **k: 4.]
        f = wrap(linear, lists, dicts)
        result = f(3., 2., scale=ufloat(1, 0.5)), f(ufloat(1, 0.5), 1)
        return result, sorted(dicts), [x is None for x in lists]

    op('wrap', 'containers', lambda w: derivatives())
    op('wrap', 'partial', lambda w: core.partial_derivative(square, 0)(3., 2.))
    op('wrap', 'partial key', lambda w: core.partial_derivative(
        square, 'scale')(3., scale=2.))
    op('wrap', 'derivatives of', lambda w: core.partial_derivative(
        failing, 0)(3.))


def add_arrays():
    op('uarray', 'FS', lambda w: unumpy.uarray(w.F, w.S))
    op('uarray', 'IS', lambda w: unumpy.uarray(w.I, w.S))
    op('uarray', 'lists', lambda w: unumpy.uarray(w.nom, [0.5, 0]))
    op('uarray', 'old', lambda w: unumpy.uarray((w.F, w.S)))
    op('uarray', 'negative', lambda w: unumpy.uarray(w.F, w.F))
    op('uarray', 'shapes', lambda w: unumpy.uarray(w.F, w.P))
    op('uarray', 'matrix', lambda w: unumpy.umatrix(w.P, w.cov2))
    op('uarray', 'matrix refused', lambda w: unumpy.umatrix(w.P, -w.cov2))
    for n in 'ABDFIMNPZ':
        op('extract', 'nominal '+n, lambda w, n=n: unumpy.nominal_values(
            getattr(w, n)))
        op('extract', 'std '+n, lambda w, n=n: unumpy.std_devs(getattr(w, n)))
    op('extract', 'text', lambda w: unumpy.nominal_values(['x', 'y']))
    op('extract', 'changed', lambda w: (
        unumpy.nominal_values(w.A).fill(7), unumpy.nominal_values(
            w.F).fill(7), unumpy.std_devs(w.A).fill(7), unumpy.std_devs(
                w.D).fill(7), unumpy.nominal_values(w.P).fill(7)))
    names = ['sin', 'arccos', 'sqrt', 'exp', 'log', 'isnan', 'fabs',
             'degrees', 'ceil', 'gamma', 'arctan2', 'hypot']
    for f in names:
        if f not in unumpy.__all__:
            continue
        func = getattr(unumpy, f)
        two = (lambda x: (x, 2)) if f in ('arctan2', 'hypot') else (
            lambda x: (x,))
        for n in 'ABDFM':
            op('unumpy', f+' '+n, lambda w, f=func, n=n, two=two: f(
                *two(getattr(w, n))))
        op('unumpy', f+' p', lambda w, f=func, two=two: f(*two(w.p)))
        op('unumpy', f+' refused', lambda w, f=func, two=two: f(*two('x')))
    for n in 'MNPZ':
        for f in ('inv', 'pinv'):
            func = getattr(ulinalg, f)
            op('linalg', f+' '+n, lambda w, f=func, n=n: f(getattr(w, n)))
    op('linalg', 'pinv rcond', lambda w: ulinalg.pinv(w.M, 1e-5))
    op('linalg', 'inv singular', lambda w: ulinalg.inv(numpy.array(
        [[1., 2.], [2., 4.]])))
    op('linalg', 'inv vector', lambda w: ulinalg.inv(w.A))
    op('linalg', 'pinv vector', lambda w: ulinalg.pinv(w.A))
    op('linalg', 'I', lambda w: (w.M.I, w.M.T, w.M*w.N))
    op('linalg', 'power', lambda w: w.M**2)
    op('linalg', 'inverse power', lambda w: w.N**-1)
    op('linalg', 'I singular', lambda w: unumpy.matrix(w.Z).I)
    op('linalg', 'attributes', lambda w: (w.M.nominal_values, w.M.std_devs))
    for k, f in (('sum', numpy.sum), ('mean', numpy.mean), ('sort', numpy.sort),
                 ('dot', lambda x: x.dot(x)), ('max', numpy.max),
                 ('cumsum', numpy.cumsum), ('sin', numpy.sin),
                 ('sqrt', numpy.sqrt), ('isnan', numpy.isnan)):
        for n in 'ABD':
            op('numpy', k+' '+n, lambda w, f=f, n=n: f(getattr(w, n)))
    if hasattr(core, 'wrap_array_func'):
        module = core
    else:
        module = unumpy.core
    wrapped = module.wrap_array_func
    op('array function', 'A', lambda w: wrapped(array_func)(w.A))
    op('array function', 'B', lambda w: wrapped(array_func)(w.B))
    op('array function', 'F', lambda w: wrapped(array_func)(w.F))
    op('array function', 'failing', lambda w: wrapped(failing)(w.A))


# Probes


def contents(w):
    """Everything in the world."""
    out = []
    for name in sorted(vars(w)):
        x = getattr(w, name)
        out.append((name, show(x, w)))
        if isinstance(x, numpy.ndarray):
            out.append((name, x.flags.writeable, x.strides))
            out.append([i for i, e in enumerate(x.flat) for n in 'abcdpr'
                        if e is getattr(w, n)])
    for name in 'numbers',:
        out.append([e is f for e, f in zip(w.numbers, (w.a, w.b, w.r))])
    return repr(out)


WATCHED = [math, operator, copy, pickle, decimal, warnings, numpy,
           numpy.linalg, random, sys, os]


def public(module):
    return [(k, id(v)) for k, v in sorted(vars(module).items())
            if not k.startswith('_')]


def interpreter(w):
    """The state of the interpreter and of the modules used."""
    out = [numpy.geterr(), numpy.geterrcall(), numpy.get_printoptions(),
           numpy.random.get_state()[1].tolist()[:8],
           numpy.random.get_state()[2:],
           [f[:2]+f[2:3]+f[4:] for f in map(repr_filter, warnings.filters)],
           id(warnings.showwarning), repr(decimal.getcontext()),
           locale.setlocale(locale.LC_ALL), os.getcwd(),
           sorted(os.environ.items()), sys.path, sys.getrecursionlimit(),
           id(sys.stdout), id(sys.stderr), id(sys.excepthook),
           sys.gettrace(), sys.getprofile(), gc.isenabled(), gc.get_threshold(),
           [t.name for t in threading.enumerate()],
           [(s, id(signal.getsignal(s))) for s in (
               signal.SIGINT, signal.SIGTERM, signal.SIGALRM)],
           sys.flags, sys.getswitchinterval()]
    modules = list(WATCHED)
    for module in modules:
        names = public(module)
        if module is sys:
            names = [(k, i) for k, i in names if k not in (
                'last_type', 'last_value', 'last_traceback', 'last_exc',
                'modules', 'path_importer_cache')]
        if module is warnings:
            names = [(k, i) for k, i in names if k != 'filters']
        out.append(names)
    for module in (uncertainties, umath, unumpy, ulinalg):
        out.append([(k, id(getattr(module, k))) for k in module.__all__])
    out.append([(k, id(v)) for k, v in sorted(vars(numpy.ndarray).items())])
    return repr(out)


def repr_filter(f):
    return tuple(map(repr, f))


def released(w):
    """Numbers still in memory when nothing refers to them anymore."""
    w.__dict__.clear()
    gc.collect()
    return repr(sum(isinstance(x, (UFloat, core.LinearCombination))
                    for x in gc.get_objects()))


def add_probes():
    op('probe', 'contents', contents)
    op('probe', 'interpreter', interpreter)
    op('probe', 'released', released)


# Assignments (the only events that are supposed to change something)

def assign(w, kind):
    if kind == 'a':
        w.a.std_dev = 0.75
    elif kind == 'b':
        w.b.std_dev = 2
    elif kind == 'exact':
        w.a.std_dev = 0
        w.c.std_dev = 0
    elif kind == 'near':
        w.a.std_dev = 0.5000001
    elif kind == 'tag':
        w.a.tag = 'other'
    elif kind == 'element':
        w.A[0] = w.d
        w.D[1] = w.p
        w.M[0, 1] = w.d
        w.F[0] = 1.
        w.S[1] = 0.5
        w.P[0, 0] = 2
    elif kind == 'lists':
        w.numbers[0] = w.d
        w.cov[0][0] = 3.
        w.cov2[0, 0] = 3.
        w.nom[0] = 4.
        w.tags[0] = 'v'
        w.pairs[0] = (2., 0.5)
        w.corr[0, 1] = w.corr[1, 0] = 0.25
    elif kind == 'operators':
        w.a += 1
        w.A *= 2
    elif kind == 'errors':
        numpy.seterr(all='ignore')
    elif kind == 'context':
        decimal.getcontext().prec = 5
    else:
        raise AssertionError(kind)


ASSIGN = ['a', 'b', 'exact', 'near', 'tag', 'element', 'lists', 'operators',
          'errors', 'context']


def prepare():
    if not OPS:
        add_operators()
        add_readings()
        add_texts()
        add_creation()
        add_umath()
        add_wrap()
        add_arrays()
        add_probes()


def perform(name, w):
    """The text that describes everything an event gives."""
    if name.startswith('= '):
        assign(w, name[2:])
        return None
    with warnings.catch_warnings(record=True) as caught:
        warnings.simplefilter('always')
        try:
            result = OPS[name](w)
            text = result if name.startswith('probe') else show(result, w)
        except Exception as e:
            text = 'raises '+type(e).__name__
            traceback.clear_frames(e.__traceback__)
            e.__traceback__ = e.__context__ = e.__cause__ = None
        result = None
    kinds = sorted({c.category.__name__ for c in caught})
    return text+(' warns %s' % kinds if kinds else '')


def in_fork(func):
    """What func() returns (list of strings), in a copy of this process."""
    r, wr = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if not pid:
        status = 1
        try:
            os.close(r)
            signal.alarm(0)
            with io.open(wr, 'wb') as f:
                f.write(pickle.dumps(func()))
            status = 0
        except BaseException:
            traceback.print_exc()
        finally:
            os._exit(status)
    os.close(wr)
    with io.open(r, 'rb') as f:
        data = f.read()
    _, status = os.waitpid(pid, 0)
    if status:
        return ['the process dies (status %d)' % status]
    return pickle.loads(data)


def read_all(names, w):
    """What each operation gives in the present state."""
    return [in_fork(lambda: [perform(n, w)])[0] for n in names]


NUMBER = re.compile(r'(-?\d+(?:\.\d*)?(?:e[-+]?\d+)?)')


def agree(x, y):
    """Equal texts, apart from rounding errors."""
    if x == y:
        return True
    x, y = NUMBER.split(x), NUMBER.split(y)
    return len(x) == len(y) and x[::2] == y[::2] and all(
        s == t or abs(float(s)-float(t)) <= 1e-9*abs(float(s))+1e-12
        for s, t in zip(x[1::2], y[1::2]))


def difference(x, y):
    """Short description of a difference between two texts."""
    x, y = str(x), str(y)
    i = 0
    while i < min(len(x), len(y)) and x[i] == y[i]:
        i += 1
    i = max(i-60, 0)
    return '...%s instead of ...%s' % (x[i:i+160], y[i:i+160])


def run_case(case, ctx):
    """One history: its last operation gives what it should."""
    prepare()
    _, hist, last = case

    def reached(events):
        w = World()
        for e in events:
            perform(e, w)
        return [perform(last, w)]

    got = in_fork(lambda: reached(hist))[0]
    expected = in_fork(lambda: reached(
        [e for e in hist if e.startswith('= ')]))[0]
    ctx.traces += 1
    require(agree(got, expected), '%s after %s: %s', last, hist,
            difference(got, expected))


BASE = {}


def baseline(assignments):
    """What each operation gives after the assignments only."""
    if assignments not in BASE:
        def func():
            w = World()
            for e in assignments:
                perform(e, w)
            return read_all(sorted(OPS), w)
        BASE[assignments] = dict(zip(sorted(OPS), in_fork(func)))
    return BASE[assignments]


def explore(events, last_names, ctx, sequence=False):
    """All the last operations after a history (or one after the other)."""
    expected = baseline(tuple(e for e in events if e.startswith('= ')))

    def func():
        w = World()
        gc.freeze()
        for e in events:
            perform(e, w)
        if sequence:
            return [perform(n, w) for n in last_names]
        return read_all(last_names, w)

    results = in_fork(func)
    ctx.state(repr((events, sequence)))
    if len(results) != len(last_names):
        ctx.fail(['history', events, last_names[0]], results[0])
        return
    ctx.transitions += len(events)+len(last_names)
    for i, (name, got) in enumerate(zip(last_names, results)):
        ctx.traces += 1
        ctx.outcome('raises' if got.startswith('raises') else 'value')
        if not agree(got, expected[name]):
            before = list(events)+(last_names[:i] if sequence else [])
            ctx.fail(['history', before, name], '%s after %s: %s' % (
                name, before[-3:], difference(got, expected[name])))
            if ctx.full or sequence:
                return


def related(name):
    """Operations of the same family, and probes."""
    return [n for n in sorted(OPS) if FAMILY[n] in (FAMILY[name], 'probe')]


PARTS = 48
# Operations of different kinds, for longer histories:
CORE = ['+ a, b', '/ refused', '== a, c', '== r, s', 'read r std_dev',
        'read s components', 'copy deepcopy r', 'copy pickle r', 'text r repr',
        'format a .1u', 'format refused', 'parse 3.0(5)', 'parse refused x',
        'ufloat two', 'ufloat refused negative', 'correlated norm tags',
        'covariance abr', 'correlation abr', 'sin a', 'sqrt b', 'fsum abr',
        'wrap linear a, b', 'wrap failing a', 'uarray FS', 'uarray negative',
        'extract nominal A', 'unumpy sqrt A', 'unumpy sin M', 'linalg inv M',
        'linalg pinv Z', 'linalg inv singular', 'numpy sort A',
        'array function A', 'array function failing']


def tasks(tier):
    prepare()
    missing = [n for n in CORE if n not in OPS]
    assert not missing, missing
    out = [['pairs', i, PARTS, tier != 'quick'] for i in range(PARTS)]
    out += [['assigned', k, i, 8] for k in ASSIGN for i in range(8)]
    if tier == 'thorough':
        out += [['triples', n] for n in CORE]
        out += [['assigned pairs', k, i, 16] for k in ASSIGN
                for i in range(16)]
    return out


def run_task(task, ctx):
    prepare()
    names = sorted(OPS)
    kind = task[0]
    if kind == 'pairs':
        _, part, parts, full = task
        for i, name in list(enumerate(names))[part::parts]:
            if name == 'probe released':
                continue
            if full:
                explore([name], names, ctx)
            else:
                explore([name], sorted(set(related(name)+CORE)), ctx)
            # All the others, one after the other:
            others = [n for n in names[i+1:]+names[:i+1] if not n.startswith(
                'probe released')]
            explore([name], others, ctx, sequence=True)
            if full:
                explore([name], others[::-1], ctx, sequence=True)
            if ctx.full:
                return
        ctx.sample(['history', [name], names[part]])
    elif kind == 'assigned':
        _, event, part, parts = task
        for name in names[part::parts]:
            if name == 'probe released':
                continue
            # The same operation again, then those of the same kind:
            after = [name]+[n for n in related(name) if n != name]
            after.sort(key=lambda n: n == 'probe released')
            explore([name, '= '+event], after, ctx, sequence=True)
            explore(['= '+event, name], after, ctx, sequence=True)
            if ctx.full:
                return
        ctx.sample(['history', [name, '= '+event], related(name)[0]])
    elif kind == 'assigned pairs':
        _, event, part, parts = task
        for name in names[part::parts]:
            if name != 'probe released':
                explore([name, '= '+event],
                        sorted(set(related(name)+CORE)), ctx)
            if ctx.full:
                return
    else:
        for second in CORE:
            explore([task[1], second], names, ctx)
            if ctx.full:
                return
        ctx.sample(['history', [task[1], second], names[0]])


def replay(case, ctx):
    run_case(case, ctx)
