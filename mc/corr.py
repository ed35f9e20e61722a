"""Exact model of correlated numbers under copying and pickling.

Used by C04 and C05: a history is a list of events on a growing pool of
numbers; the model knows, for every number, its exact value and derivatives
with respect to abstract variables, and for every abstract variable its exact
value, standard deviation and tag.
"""
import copy
import io
import pickle
from fractions import Fraction as F

import numpy

from uncertainties import ufloat, UFloat, covariance_matrix, umath

from .run import require

INITIAL = [(F(3, 2), F(1, 2), 'A'), (F(-2), F(1, 4), 'B')]


class Num(object):
    __slots__ = ('v', 'd', 'var')

    def __init__(self, v, d, var=None):
        self.v, self.d, self.var = v, d, var


class World(object):
    """Implementation objects together with their model."""

    def __init__(self, make=None):
        self.vars = []       # [value, std, tag]
        self.model = []
        self.impl = []
        for v, s, t in INITIAL:
            k = self.new_var(v, s, t)
            self.model.append(Num(v, {k: F(1)}, k))
            self.impl.append((make or ufloat)(float(v), float(s), tag=t))

    def new_var(self, v, s, t):
        self.vars.append([v, s, t])
        return len(self.vars)-1

    # Model of copies: one mapping of variables per pickle; deep copies are
    # documented to be fully independent of any variable defined so far, so
    # that each deep-copied number of a container has its own mapping
    def cloned(self, indices):
        mapping = {}

        def clone_var(k):
            if k not in mapping:
                mapping[k] = self.new_var(*self.vars[k])
            return mapping[k]
        out = []
        for i in indices:
            m = self.model[i]
            if m.var is not None:
                k = clone_var(m.var)
                out.append(Num(m.v, {k: F(1)}, k))
            else:
                out.append(Num(m.v, {clone_var(k): t for k, t in m.d.items()}))
        return out

    def push(self, impl, model):
        self.impl.append(impl)
        self.model.append(model)

    def apply(self, ev):
        kind = ev[0]
        I, M = self.impl, self.model
        if kind == 'add':
            i, j = ev[1:]
            d = dict(M[i].d)
            for k, t in M[j].d.items():
                d[k] = d.get(k, F(0))+t
            self.push(I[i]+I[j], Num(M[i].v+M[j].v, d))
        elif kind == 'mul':
            i, j = ev[1:]
            d = {k: t*M[j].v for k, t in M[i].d.items()}
            for k, t in M[j].d.items():
                d[k] = d.get(k, F(0))+t*M[i].v
            self.push(I[i]*I[j], Num(M[i].v*M[j].v, d))
        elif kind == 'dbl':
            i = ev[1]
            self.push(umath.ldexp(I[i], 1),
                      Num(2*M[i].v, {k: 2*t for k, t in M[i].d.items()}))
        elif kind == 'copy':
            i = ev[1]
            m = M[i]
            if m.var is not None:
                new = self.cloned([i])[0]
            else:
                new = Num(m.v, dict(m.d))
            self.push(copy.copy(I[i]), new)
        elif kind == 'deepcopy':
            self.push(copy.deepcopy(I[ev[1]]), self.cloned([ev[1]])[0])
        elif kind == 'deeplist':
            idx = ev[1]
            new = [self.cloned([i])[0] for i in idx]
            got = copy.deepcopy([I[i] for i in idx])
            for g, n in zip(got, new):
                self.push(g, n)
        elif kind == 'deepdict':
            idx = ev[1]
            new = [self.cloned([i])[0] for i in idx]
            got = copy.deepcopy({'x': (I[idx[0]],), 'y': [I[idx[1]], {}]})
            self.push(got['x'][0], new[0])
            self.push(got['y'][0], new[1])
        elif kind == 'deeparray':
            idx = ev[1]
            new = [self.cloned([i])[0] for i in idx]
            a = numpy.empty(len(idx), dtype=object)
            for n, i in enumerate(idx):
                a[n] = I[i]
            for g, n in zip(copy.deepcopy(a), new):
                self.push(g, n)
        elif kind == 'pickle':
            idx, proto, how, shape = ev[1:]
            new = self.cloned(idx)
            got = roundtrip([I[i] for i in idx], proto, how, shape)
            for g, n in zip(got, new):
                self.push(g, n)
        elif kind == 'read':
            I[ev[1]].std_dev
        elif kind == 'set':
            i, s = ev[1:]
            require(M[i].var is not None, 'bad event')
            I[i].std_dev = s
            self.vars[M[i].var][1] = F(s)
        elif kind == 'setinner':
            i, tag, s = ev[1:]
            for v in I[i].derivatives:
                if v.tag == tag:
                    v.std_dev = s
            for k in M[i].d:
                if self.vars[k][2] == tag:
                    self.vars[k][1] = F(s)
        else:
            raise ValueError(kind)

    def verify(self):
        I, M = self.impl, self.model
        n = len(I)
        keysets = []
        for i in range(n):
            r, m = I[i], M[i]
            require(isinstance(r, UFloat), 'number %d has type %s', i,
                    type(r).__name__)
            require(r.nominal_value == float(m.v), 'number %d: nominal value '
                    '%r instead of %s', i, r.nominal_value, m.v)
            ders = r.derivatives
            got = sorted((v.tag, v.nominal_value, float(v.std_dev), float(d))
                         for v, d in ders.items())
            ref = sorted((self.vars[k][2], float(self.vars[k][0]),
                          float(self.vars[k][1]), float(d))
                         for k, d in m.d.items())
            require(got == ref, 'number %d depends on (tag, value, std_dev, '
                    'derivative) %r instead of %r', i, got, ref)
            keysets.append({id(v) for v in ders})
            if m.var is not None:
                s = self.vars[m.var]
                require(len(ders) == 1 and next(iter(ders)) is r,
                        'variable %d does not depend on itself only', i)
                require(r.tag == s[2], 'variable %d: tag %r', i, r.tag)
                require(float(r.std_dev) == float(s[1]),
                        'variable %d: std_dev %r instead of %s', i, r.std_dev,
                        s[1])
            var = sum((d*self.vars[k][1])**2 for k, d in m.d.items())
            require(abs(F(r.std_dev)**2-var) <= var*F(1, 10**12),
                    'number %d: std_dev %r instead of sqrt(%s)', i, r.std_dev,
                    var)
        for i in range(n):
            for j in range(i):
                shared = len(keysets[i] & keysets[j])
                ref = len(set(M[i].d) & set(M[j].d))
                require(shared == ref, 'numbers %d and %d share %d variables '
                        'instead of %d', j, i, shared, ref)
        cov = covariance_matrix(I)
        for i in range(n):
            for j in range(n):
                ref = sum((M[i].d[k]*M[j].d[k]*self.vars[k][1]**2
                           for k in M[i].d if k in M[j].d), F(0))
                require(cov[i][j] == float(ref), 'covariance(%d, %d) is %r '
                        'instead of %s', i, j, cov[i][j], ref)
        for i in range(n):
            for j in range(n):
                diff = {k: M[i].d.get(k, 0)-M[j].d.get(k, 0)
                        for k in set(M[i].d) | set(M[j].d)}
                equal = M[i].v == M[j].v and not any(
                    t*self.vars[k][1] for k, t in diff.items())
                require((I[i] == I[j]) is equal, 'numbers %d and %d: == is not '
                        '%s', i, j, equal)

    def key(self):
        return (tuple(tuple(v) for v in self.vars),
                tuple((m.v, m.var, tuple(sorted(m.d.items())))
                      for m in self.model))


def roundtrip(objs, proto, how, shape):
    """Pickle and unpickle objs in some container; returns the new objects."""
    n = len(objs)
    if shape == 'single':
        container = objs[0]
    elif shape == 'list':
        container = list(objs)
    elif shape == 'tuple':
        container = tuple(objs)
    elif shape == 'dict':
        container = {'k%d' % i: [o] for i, o in enumerate(objs)}
    elif shape == 'twice':
        container = [list(objs), list(objs)]
    elif shape == 'array':
        container = numpy.empty(n, dtype=object)
        for i, o in enumerate(objs):
            container[i] = o
    elif shape == 'reversed':
        container = list(reversed(objs))
    else:
        raise ValueError(shape)
    f = io.BytesIO()
    if how == 'py':
        pickle._Pickler(f, proto).dump(container)
        f.seek(0)
        got = pickle._Unpickler(f).load()
    elif how == 'c':
        got = pickle.loads(pickle.dumps(container, proto))
    elif how == 'mixed':
        pickle.Pickler(f, proto).dump(container)
        f.seek(0)
        got = pickle._Unpickler(f).load()
    else:
        raise ValueError(how)
    if shape == 'single':
        return [got]
    if shape == 'dict':
        return [got['k%d' % i][0] for i in range(n)]
    if shape == 'twice':
        for x, y in zip(*got):
            require(x is y, 'identity lost inside the container')
        return got[0]
    if shape == 'reversed':
        return list(reversed(got))
    return list(got)


def explore(first, depth, enabled, ctx, label, make=None, sample=None):
    """All histories of events of the given length starting with `first`."""
    def run(hist):
        w = World(make)
        for ev in hist:
            w.apply(ev)
        return w

    def rec(hist):
        if ctx.full:
            return
        if len(hist) == depth:
            case = [label, hist]
            with ctx.case(case):
                w = run(hist)
                w.verify()
                ctx.state(w.key())
                ctx.outcome(hist[-1][0])
            ctx.traces += 1
            ctx.transitions += depth
            return
        try:
            w = run(hist)
        except Exception:
            case = [label, hist]
            with ctx.case(case):
                run(hist)
            return
        for ev in enabled(w, hist):
            rec(hist+[ev])
    rec([first])
    ctx.sample([label, [first]])
