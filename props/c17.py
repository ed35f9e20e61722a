"""C17: the code converter modernizes obsolete calls and nothing else.

All the programs built from a grammar (forms of numbers and arrays, obsolete,
modern or unrelated, in all syntactic positions) are converted by the real
converter and, before and after conversion, executed with the real package:

- the converted program compiles, calculates the same values with the same
  variables, and does not issue any warning, while the original program warns
  when it uses an obsolete form;
- the conversion is local: converting a program gives the program with its
  expressions converted, to the byte (comments and layout included), and
  programs without obsolete code are unchanged;
- converting again changes nothing;
- the command line tool rewrites files and directories accordingly.
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile
import types
import warnings

import uncertainties
from uncertainties import unumpy, umath

from mc import env
from mc.num import same
from mc.run import require

ID = 'C17'
LEVEL = 'model_checking'
RULE = ('a state is a distinct program text; a transition is one conversion, '
        'from one program to the next one; a trace is one program that was '
        'converted and executed before and after conversion with the real '
        'package, or one set of files converted by the command line tool')
ASSUMPTIONS = ['programs that lib2to3 can parse',
               'obsolete forms with literal tuples and strings, accessed '
               'directly or through dotted names',
               'argument-free methods called std_dev and std_devs, and '
               'methods called set_std_dev, are those of the package']

# ---------------------------------------------------------------------------
# Forms: (text, obsolete?, kind)

def prefixed(names, texts):
    return [n + t for n in names for t in texts]

U_PREFIXES = ['ufloat', 'unc.ufloat', 'uncertainties.ufloat', 'obj.unc.ufloat']
NP_PREFIXES = ['uarray', 'unumpy.uarray', 'unc.unumpy.uarray', 'umatrix',
               'unumpy.umatrix', 'uncertainties.unumpy.umatrix']

TUPLE_ARGS = ['((1, 0.1))', '((1,0.1))', '( (1, 0.1) )', '((1, 0.1), "tag")',
              '((1, 0.1), tag="tag")', '((1, 0.1,))', '((1, 0.1),)',
              '((1, 0.1), "tag",)', '((1, 0.1), tag=None)',
              '((y.nominal_value, 2*0.1))', '((-1, abs(-0.1)))',
              '((1,\n    0.1))', '(\n    (1, 0.1),\n    "tag")',
              '((1, # nominal value\n    0.1))', '((1, 0.1), *["tag"])',
              '((1, 0.1), **{"tag": "tag"})', '((c and 1, 1 if c else 2))',
              '((1, 0.1), tag="a" "b")', '((1e3, [0.5][0]))',
              '((int("1"), 0.1), ident("tag"))']
STRING_ARGS = ['("1+/-0.1")', "('1.23(4)')", '("1(2)", "tag")',
               '("1(2)", tag="tag")', '("1" "(2)")', '("""1+/-0.1""")',
               '(u"1+/-0.1")', '(r"1+/-0.1")', '("1+/-0.1",)',
               '("1+/-0.1", "tag",)', '( "1(2)" )', '("-1.2(3)e10")',
               '("1(2)"\n    "e3")', '("1", *["tag"])', '("12.3", tag=None)']
ARRAY_ARGS = ['((v, s))', '((v,s))', '( (v, s) )', '((v, s,))', '((v, s),)',
              '(t)', '( t )', '(t,)', '(ident(t))', '(l2[0])', '(obj.t)',
              '((v if c else s, s))', '((v,\n    s))',
              '(([[1, 2], [3, 4]], [[0.1, 0.2], [0.3, 0.4]]))',
              '([v, s])', '(t if c else None)', '(c and t)', '(t[:2])',
              '((2*v, 3*s))', '([w for w in t])', '((lambda: t)())']
STD_OWNERS = ['x', 'obj.x', 'l[0]', 'ident(x)', '(x+y)', '(x)', 'd["k"]',
              'ident(x, k=1)', 'l[:1][0]', 'obj.l[0]', 'umath.sin(x)',
              '(-x)', '[x.std_score(1) .__class__ and x][0]',
              'ufloat(1, 0.1)', '[x, y][1]', '{1: x}[1]']
STD_CALLS = ['.std_dev()', '.std_dev( )', '.std_dev ()', '. std_dev()',
             '.std_dev(\n    )']
STDS_OWNERS = ['m', 'obj.m', 'l2[1]', 'm.T', '(m+m)', 'ident(m)', '(2*m)',
               'm[0]', 'unumpy.umatrix(v, s)', 'm.I']
STDS_CALLS = ['.std_devs()', '.std_devs( )', '.std_devs ()']

MODERN = ['ufloat(1, 0.1)', 'ufloat(1,0.1,"tag")', 'ufloat( 1 , 0.1 )',
          'ufloat(1, 0.1, tag="tag")', 'ufloat(nominal_value=1, std_dev=0.1)',
          'ufloat(1, std_dev=0.1, tag="tag")', 'ufloat(*(1, 0.1))',
          'ufloat(*args)', 'ufloat(**kw)', 'ufloat_fromstr("1(2)")',
          'ufloat_fromstr("1(2)", "tag")', 'ufloat_fromstr("1" "(2)")',
          'unc.ufloat(1, 0.1)', 'uncertainties.ufloat(1, 0.1).std_dev',
          'unc.ufloat_fromstr("3+/-1")', 'x.std_dev', 'l[0].std_dev',
          '(x+y).std_dev', 'x.std_dev**2', 'x.std_dev.real', 'm.std_devs',
          'm.std_devs[0]', 'm.T.std_devs', 'std_dev(x)', 'std_dev(3)',
          'unc.std_dev(x)', 'uncertainties.std_dev(obj.x)',
          'unumpy.std_devs(a)', 'unc.unumpy.std_devs(m)',
          'stats.std_dev(3)', 'stats.std_dev(v, ddof=1)',
          'stats.std_devs(v)', 'stats.std_dev', 'stats.set_std_dev()',
          'stats.set_std_dev(1, 2)', 'uarray(v, s)', 'uarray( v,s )',
          'uarray(*t)', 'unumpy.uarray(* t)', 'unumpy.uarray(v, std_devs=s)',
          'uarray(nominal_values=v, std_devs=s)', 'umatrix(v, s)',
          'uarray(**kwa)', 'unumpy.umatrix(*t)', 'umatrix(v, s).std_devs',
          'uarray([1, 2], [0.1, 0.2])', 'umatrix([[1, 2]], [[3, 4]])',
          'uarray(v, s,)', 'uarray(v[0], (0.1, 0.2))', 'unc.unumpy.uarray(v,s)',
          'ufloat', 'unumpy.uarray', '(ufloat and x)', '[ufloat, 1][1]',
          'setattr(y, "std_dev", 1)', 'getattr(x, "std_dev")',
          'stats.ufloat(1)', 'stats.uarray()', 'ufloat(1, 0.1).nominal_value',
          'math.sqrt(2)', '(1, 2)', '"1(2)"', 'str((1, 2))', 'ident((1, 2))',
          'ident("1(2)")', 'float("1")', 'np.array((1, 2))', 'np.array(v)',
          'max((1, 2))', '"x.std_dev()"', "'ufloat((1, 2))'", 'myufloat((1, 2))',
          'obj.myuarray((v, s))', '"""x.set_std_dev(3)"""', 'x*y + 2',
          'np.std(v)', 'stats.std((1, 2))', 'ufloat(1, 0.1) .std_dev',
          'ufloat(x.nominal_value, x.std_dev)', 'umath.sin(ufloat(1, 0.1))',
          '( x )', '(x if c else y)', '[v for v in (1, 2)]',
          '(lambda std_dev: std_dev)', '{"std_dev": 1}', 'dict(std_dev=1)',
          'ident(std_dev=3)', 'x.n', 'x.s', '(x[0] if 0 else 1)', 'v.std()',
          'ufloat(1, 2 ** 0.5)', 'ufloat(1, 0.1, "std_dev()")']


def forms():
    out = []
    for t in prefixed(U_PREFIXES, TUPLE_ARGS + STRING_ARGS):
        out.append((t, True))
    for t in prefixed(NP_PREFIXES, ARRAY_ARGS):
        out.append((t, True))
    for owner in STD_OWNERS:
        for call in STD_CALLS:
            out.append((owner + call, True))
    for owner in STDS_OWNERS:
        for call in STDS_CALLS:
            out.append((owner + call, True))
    out += [('ufloat ((1, 0.1))', True), ('ufloat((1, 0.1)).std_dev()', True),
            ('ufloat("1(2)").std_dev()', True),
            ('ufloat((1, 0.1)).nominal_value', True),
            ('ufloat("1(2)").n**2', True),
            ('umatrix((v, s)).std_devs()', True),
            ('umatrix(t).T.std_devs()', True),
            ('uarray((v, s)).sum().std_dev()', True),
            ('uarray(t)[0, 0].std_dev()', True),
            ('unumpy.uarray((v, s))[0]', True),
            ('unc.ufloat((1, 0.1)) .n', True)]
    for t in MODERN:
        out.append((t, False))
    return out


def brief_forms():
    """Forms used in pairs and in nested programs."""
    return [('ufloat((1, 0.1))', True), ('unc.ufloat((1, 0.1), "tag")', True),
            ('uncertainties.ufloat((1,\n    0.1), tag="tag",)', True),
            ('ufloat("1(2)")', True), ('unc.ufloat("1(2)", tag="tag")', True),
            ('uarray((v, s))', True), ('unumpy.uarray(t)', True),
            ('unc.unumpy.umatrix((v, s))', True), ('umatrix(ident(t))', True),
            ('x.std_dev()', True), ('(x+y).std_dev()', True),
            ('l[0].std_dev()', True), ('ident(x).std_dev ()', True),
            ('m.std_devs()', True), ('m.T.std_devs()', True),
            ('ufloat((1, 0.1)).std_dev()', True),
            ('ufloat(1, 0.1)', False), ('ufloat_fromstr("1(2)")', False),
            ('x.std_dev', False), ('std_dev(x)', False),
            ('uarray(*t)', False), ('m.std_devs', False),
            ('"x.std_dev()"', False), ('y', False)]

# Forms with holes; the kind of the holes is 'f' (float) or 'n' (any number)
NESTS = ['ufloat(({f}, {f}))', 'unc.ufloat(({f}, 0.1), {s})',
         'ufloat((nominal_value({n}), std_dev({n})))',
         'ufloat(({n}.n, {n}.s), tag={s})', '({n}*{n}).std_dev()',
         'ident({n}).std_dev()', '[{n}, {n}][0].std_dev()',
         'uarray(([{f}, 1], [0.1, {f}]))', 'uarray(ident(([{f}], [{f}])))',
         'umatrix([[[{f}]], [[{f}]]]).std_devs()', 'x.set_std_dev({f})',
         'ufloat({f}, {f})', 'ident({n}, k={n})', '({n}+{n}).std_dev',
         'ufloat_fromstr(str({n}))']
HOLES = {
    'f': ['x.std_dev()', 'ufloat((1, 0.1)).std_dev()', 'ufloat("1(2)").n',
          'l[1].std_dev()**2', 'x.std_dev', '2', 'm.std_devs()[0, 0]',
          'uarray((v, s))[0, 0].n', 'abs(-(x+y).std_dev())'],
    'n': ['x', 'ufloat((1, 0.1))', 'unc.ufloat("1(2)", "tag")', 'ufloat(1, 2)',
          'uarray(t)[0, 0]', '(x if x.std_dev() else y)'],
    's': ['"tag"', 'str(x.std_dev())', 'ident(ufloat("1(2)", "u").tag)']}
DEEPER = {
    'f': ['ufloat((x.std_dev(), l[1].std_dev())).std_dev()',
          'ident(ufloat("1(2)")).std_dev()',
          'umatrix(([[x.std_dev()]], [[1]])).std_devs()[0, 0]'],
    'n': ['ufloat((ufloat("1(2)").n, x.std_dev()))',
          '(ufloat((1, 0.1))*uarray((v, s))[0, 0])'], 's': []}

# ---------------------------------------------------------------------------
# Contexts.  Holes are {0} and {1}.

CONTEXTS = ['r = {0}', 'r={0}', 'r  =  {0}  # {0!s:.0}std_dev()', 'r = -{0}',
            'r = {0}*2', 'r = 2*{0}', 'r = {0}**2', 'r = {0} + {0}',
            'r = ({0})', 'r = ({0}, {0})', 'r = [{0}]', 'r = [{0}, 1]',
            'r = [1, {0},]', 'r = {{1: {0}}}', 'r = {{"a": 1, "b": {0}}}',
            'r = ident({0})', 'r = ident( {0} )', 'r = ident({0}, 1)',
            'r = ident(ident({0}), k={0})', 'r = ident(1, k={0})',
            'r = ident(1, k = {0}, j=2)', 'r = ident(*[{0}])',
            'r = ident(1, **{{"k": {0}}})', 'r = [{0}][0]',
            'r = [1, 2][0 if {0} is None else 1]', 'r = {0} is None',
            'r = {0} if c else 1', 'r = 1 if {0} is None else {0}',
            'r = c and {0}', 'r = not c or {0}', 'r = not {0} is None',
            'r = (lambda: {0})()', 'r = (lambda k={0}: k)()',
            'r = [{0} for i in (1, 2)]', 'r = [i for i in ({0}, 1)]',
            'r = [i for i in (1, 2) if {0} is not None]',
            'r = list({0} for i in (1, 2))', 'r = {{i: {0} for i in (1, 2)}}',
            'r, q = {0}, 1', 'r, q = 1, {0}', 'r = q = {0}', 'r = [1]; r += [{0}]',
            'r = {0}; q = {0}', 'q = 1; r = {0};', '{0}', '{0}; r = 1',
            'r = \\\n    {0}', 'r = [\n    {0},  # comment\n    {0},\n]',
            'r = ident(\n    {0}\n    )', '# ufloat((1, 2))\nr = {0}',
            'r = {0}\n# x.std_dev()\n', '"""ufloat((1, 2))"""\nr = {0}',
            'r = ["x.std_dev()", {0}]', 'r = "%.30r" % ({0} is None)',
            'if {0} is not None:\n    r = 1\nelse:\n    r = 2',
            'if c: r = {0}', 'if c:\n    r = {0}\nelse:\n    r = 2',
            'if not c:\n\tr = 1\nelif {0} is not None:\n\tr = {0}',
            'for r in [{0}]: pass', 'for i in (1, 2):\n    r = {0}\n\n    q = 1\n',
            'while c:\n    r = {0}\n    break', 'while {0} is None: pass',
            'def f(): return {0}\nr = f()', 'def f():\n    return {0}\nr = f()',
            'def f(k={0}):\n    "std_dev()"\n    return k\nr = f()',
            'def f():\n    yield {0}\nr = list(f())',
            'def f(i):\n    def g():\n        return {0}\n    return g\nr = f(1)()',
            '@ident\ndef f():\n    # ufloat("3")\n    q = {0}\n\n    return q\nr = f()',
            'class A: r = {0}\nr = A.r',
            'class A(object):\n    def f(self):\n        return {0}\nr = A().f()',
            'class A(object):\n\n    v = {0}   \n\n\nr = A.v',
            'try:\n    r = {0}\nfinally:\n    q = 1',
            'try:\n    1/0\nexcept ZeroDivisionError:\n    r = {0}',
            'with manager() as r:\n    q = {0}', 'with manager({0}) as r: pass',
            'assert {0} is not None', 'try:\n    assert not c, {0}\nexcept AssertionError as e:\n    r = e.args',
            'del [{0}][0]',
            'print({0} is None)', 'global r; r = {0}', 'd["r"] = {0}; r = d["r"]',
            'obj.r = {0}\nr = obj.r', 'r = d.get({0} is None, {0})',
            'r = 1 < 2 <= 3, {0}', 'r = [0, 1, 2][:len([{0}])]',
            'r = {0},', 'r = ident({0},)', 'r = "a" "b", {0}', 'r = `1`' if 0
            else 'r = 1_0 if 0 else {0}', 'import math\n\n\nr = {0}\n\n\n',
            '\n\n\nr = {0}', 'from math import (sin,\n    cos)\nr = {0}',
            'r = {0} # \u00e9', '# -*- coding: utf-8 -*-\nr = {0}',
            '#!/usr/bin/env python\nr = {0}', 'r = {0}\n\x0c\nq = 1',
            'pass\nr = {0} ;  q = 1 ; pass', 'r = (({0}))', 'r = +{0}',
            'r = {0} != 3', 'r = 3 == {0}', 'r = {0}, *[1]' if 0 else
            'r = ident({0}, *[1])', 'r = {0}if c else 1']

PAIR_CONTEXTS = ['r = {0}; q = {1}', 'r = {0}\nq = {1}', 'r = ({0}, {1})',
                 'r = ident({0}, k={1})',
                 'r = [0, 0]\nfor c in (0, 1):\n    if c:\n        r[c] = {0}'
                 '\n    else:\n        r[c] = {1}',
                 'def f(k={0}):\n    return k, {1}\nr = f()',
                 'r = [{0} for i in (1, 2) if {1} is not None]',
                 'class A: r = {0}\nclass B(A): r = {1}\nr = A.r, B.r',
                 '# {0!s:.0}\nr = {0}   # x.std_dev()\n\n\nq = {1}  # "\n']

# Statements changing a standard deviation (obsolete)
SET_OWNERS = ['x', 'obj.x', 'l[0]', 'ident(x)', 'd["k"]', '(x)', 'obj.l[1]',
              'l[:1][0]', 'ident(x, k=1)', '(x if c else y)']
SET_ARGS = ['(0.5)', '( 0.5 )', '(2*0.5)', '(y.std_dev)', '(y.std_dev())',
            '(value=0.5)', '(value = y.std_dev())', '(0.5,)',
            '(\n    0.5)', '(0.1 +\n    0.2)', '(1 if c else 2)', '((0.5))',
            '(ufloat((1, 0.1)).std_dev())', '(ident(0.5, k=1))',
            '((lambda: 0.5)())', '(ufloat("1(2)").n)', '(0.5 # comment\n    )']
# Calls that cannot all be transformed (which is not required), but must keep
# their meaning:
KEPT_ARGS = ['(*[0.5])', '(*(0.1+0.4,))', '(**{"value": 0.5})', '()',
             '(1, 2)', '(*[0.5], **{})', '(* [], value=0.5)', '(v := 0.5)',
             '(e for e in [0.5])', '(-1)', '(None)', '(**kw)', '(*args)',
             '(value=0.5,)', '(0.5,\n)', '(*[0.5],)',
             '(lambda: 0.5)', '("x")']
SET_STATEMENTS = ['{0}', '{0}  # {1:.0}comment', 'if c: {0}', '{0}; r = 1',
                  'r = 1; {0}', '{0};', '{0}; {0}', 'if c:\n    {0}',
                  'if not c:\n\tpass\nelse:\n\t{0}\n\tr = 1',
                  'for i in (1, 2):\n    {0}\n',
                  'for i in (1, 2): {0}; r = 1', 'def f():\n    {0}\nf()',
                  'def f(): {0}\nf()', 'class A: {0}',
                  'class A(object):\n    def f(self):\n\n        {0}\n\nA().f()',
                  'try:\n    {0}\nfinally:\n    r = 1', 'with manager(): {0}',
                  '# x.set_std_dev(3)\n{0}\n# x.set_std_dev(3)',
                  '"x.set_std_dev(3)"\n{0}', '\n\n{0}\n\n\nr = 1\n']
SET_EXPRESSIONS = ['r = {0}', 'r = [{0}]', 'ident({0})', '(lambda: {0})()',
                   '[{0} for i in (1, 2)]', 'c and {0}', '{0} if c else 1',
                   'r = ({0}, 1)', '({0})', 'def f(): return {0}\nr = f()',
                   'if {0} is None: r = 1', 'assert {0} is None',
                   'r = [1, {0}]  # x.set_std_dev(3)', '[\n    {0},\n    1]',
                   'for i in [{0}]: pass', 'list({0} for i in (1, 2))',
                   'r = {{1: {0}}}', 'r = {0} == 3', '{0} is None; r = 1',
                   'ident(k={0})', 'r = not {0}', '(lambda r={0}: r)()']

IMPORTS = [  # (before, after the conversion of a string creation)
    ('from uncertainties import ufloat\n',
     'from uncertainties import ufloat, ufloat_fromstr\n'),
    ('from uncertainties import umath, ufloat\n',
     'from uncertainties import umath, ufloat, ufloat_fromstr\n'),
    ('from uncertainties import (ufloat,\n    umath)  # c\n',
     'from uncertainties import (ufloat, ufloat_fromstr,\n    umath)  # c\n'),
    ('from uncertainties import ufloat, ufloat_fromstr\n', None),
    ('from uncertainties import *\n', None),
    ('import uncertainties as unc, math\n', None),
    ('from math import sin\nfrom uncertainties import ufloat as u_f, ufloat\n',
     'from math import sin\nfrom uncertainties import ufloat as u_f, ufloat, '
     'ufloat_fromstr\n'),
    ('if 1:\n    from uncertainties import ufloat\n',
     'if 1:\n    from uncertainties import ufloat, ufloat_fromstr\n'),
    ('try:\n    from uncertainties import ufloat\nexcept ImportError:\n'
     '    raise\n',
     'try:\n    from uncertainties import ufloat, ufloat_fromstr\n'
     'except ImportError:\n    raise\n')]

# ---------------------------------------------------------------------------

_TOOL = []


def tool():
    if not _TOOL:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            from lib2to3 import refactor
            _TOOL.append(refactor.RefactoringTool(
                refactor.get_fixers_from_package(
                    'uncertainties.lib1to2.fixes')))
    return _TOOL[0]


def convert(program):
    """Program with a final newline -> converted program."""
    return str(tool().refactor_string(program, '<program>'))


_CONVERTED = {}


def convert_expr(text):
    if text not in _CONVERTED:
        _CONVERTED[text] = convert('(' + text + ')\n')[1:-2]
    return _CONVERTED[text]


def ident(*args, **kwargs):
    return args[0] if args else None


class Manager(object):
    def __init__(self, *args):
        pass

    def __enter__(self):
        return 7

    def __exit__(self, *args):
        pass


class Stats(object):
    """Unrelated methods."""
    def std_dev(self, *args, **kwargs):
        return 11
    std_devs = std_dev
    uarray = ufloat = set_std_dev = std_dev

    def std(self, *args):
        return 12

STATS = Stats()


def namespace(minimal=False):
    import math
    import numpy as np
    unc = uncertainties
    if minimal:
        return {}
    ns = dict(
        uncertainties=unc, unc=unc, unumpy=unumpy, umath=umath,
        ufloat=unc.ufloat, ufloat_fromstr=unc.ufloat_fromstr,
        std_dev=unc.std_dev, nominal_value=unc.nominal_value,
        uarray=unumpy.uarray, umatrix=unumpy.umatrix, ident=ident, np=np,
        math=math, c=True, manager=Manager, stats=STATS, print=ident,
        myufloat=ident, args=(1, 0.1), kw=dict(nominal_value=1, std_dev=0.1))
    v = np.array([[1., 2.], [3., 5.]])
    s = np.array([[.1, .2], [.3, .4]])
    x = unc.ufloat(2, 0.25, 'x')
    y = unc.ufloat(3, 0.75, 'y')
    z = unc.ufloat(5, 1.5, 'z')
    m = unumpy.umatrix(v, s)
    ns.update(v=v, s=s, t=(v, s), x=x, y=y, l=[z, y], m=m,
              kwa=dict(nominal_values=v, std_devs=s),
              a=unumpy.uarray(v, s), d=dict(k=x), l2=[(v, s), m],
              obj=types.SimpleNamespace(x=x, unc=unc, m=m, t=(v, s), l=[x, z],
                                        myuarray=ident))
    return ns


def describe(value):
    """Value independent of the identity of objects."""
    import numpy as np
    if hasattr(value, 'derivatives') and hasattr(value, 'nominal_value'):
        return ['u', repr(float(value.nominal_value)),
                repr(float(value.std_dev)), getattr(value, 'tag', None),
                sorted((str(var.tag), repr(var.nominal_value),
                        repr(float(var.std_dev)), repr(d))
                       for var, d in value.derivatives.items())]
    if isinstance(value, np.ndarray):
        return ['array', type(value).__name__, list(value.shape),
                [describe(e) for e in value.ravel().tolist()]]
    if isinstance(value, float):
        return ['float', repr(float(value))]
    if isinstance(value, (list, tuple)):
        return [type(value).__name__] + [describe(e) for e in value]
    if isinstance(value, dict):
        return ['dict', sorted((str(k), describe(e))
                               for k, e in value.items())]
    if isinstance(value, (int, str, bool, type(None))):
        return repr(value)
    return type(value).__name__


def execute(program, minimal=False, strict=False):
    """(description of the results, warnings)."""
    ns = namespace(minimal)
    code = compile(program, '<program>', 'exec', dont_inherit=True)
    with warnings.catch_warnings(record=True) as issued:
        warnings.simplefilter('always')
        try:
            exec(code, ns)
        except Exception as exc:
            if strict:
                raise
            return type(exc).__name__, [str(w.message) for w in issued
                 if str(w.message).startswith('Obsolete')]
    out = {}
    for name in ('r', 'q', 'x', 'y', 'l', 'd', 'm'):
        if name in ns:
            out[name] = describe(ns[name])
    if 'obj' in ns:
        out['obj'] = [describe(ns['obj'].x), describe(ns['obj'].l)]
    return out, [str(w.message) for w in issued
                 if str(w.message).startswith('Obsolete')]


def check_program(program, expected, obsolete, ctx, minimal=False):
    """expected -- converted program, or None if not specified."""
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        before = execute(program, minimal)
        ctx.outcome('runs' if isinstance(before[0], dict) else
                    'raises '+before[0])
        new = convert(program)
    require(obsolete == bool(before[1]),
            '%r: warnings about obsolete code: %r', program, before[1])
    if expected is not None:
        require(new == expected, '%r converted to %r, not %r', program, new,
                expected)
    if not obsolete:
        require(new == program, '%r changed to %r', program, new)
    try:
        compile(new, '<converted>', 'exec', dont_inherit=True)
    except SyntaxError as exc:
        require(False, '%r converted to the invalid %r (%s)', program, new, exc)
    if obsolete:
        try:
            after = execute(new, minimal)
        except Exception as exc:
            require(False, '%r converted to %r, which fails: %r', program, new,
                    exc)
        require(before[0] == after[0], '%r converted to %r: %r became %r',
                program, new, before[0], after[0])
        require(not after[1], '%r converted to %r, still obsolete: %r',
                program, new, after[1])
        again = convert(new)
        require(again == new, '%r converted to %r, then to %r', program, new,
                again)
        ctx.transitions += 1
        ctx.state(new)
    ctx.transitions += 1
    ctx.traces += 1
    ctx.state(program)
    ctx.outcome('obsolete' if obsolete else 'modern')


def check_kept(program, ctx):
    """The meaning is kept, whatever is transformed."""
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            before = execute(program)
    except SyntaxError:
        ctx.outcome('invalid program')
        return
    new = convert(program)
    try:
        after = execute(new)
    except SyntaxError as exc:
        require(False, '%r converted to the invalid %r (%s)', program, new, exc)
    require(before[0] == after[0], '%r converted to %r: %r became %r',
            program, new, before[0], after[0])
    require(convert(new) == new, '%r converted to %r, then to %r', program,
            new, convert(new))
    ctx.transitions += 2
    ctx.traces += 1
    ctx.state(program)
    ctx.outcome('kept')


def fill(context, *texts):
    return context.format(*texts) + '\n'


GLUED = '{0}if c'


def check_context(context, a, b, ctx):
    """Forms a and b in a context: the conversion is local."""
    b = b or ('', False)
    program = fill(context, a[0], b[0])
    if GLUED in context and not a[1] and a[0][-1].isalnum():
        return  # Not a program
    used = a[1] or ('{1}' in context and b[1])
    expected = fill(context, convert_expr(a[0]), convert_expr(b[0]) if b[0]
                    else '')
    if GLUED in context and convert_expr(a[0])[-1].isalnum():
        expected = expected.replace('if c', ' if c')
    check_program(program, expected, bool(used), ctx)


# ---------------------------------------------------------------------------

def expand(nest, deep):
    """All the ways of filling the holes of a nested form."""
    import re
    import itertools
    holes = re.findall(r'\{([fns])\}', nest)
    choices = [HOLES[h] + (DEEPER[h] if deep else []) for h in holes]
    template = re.sub(r'\{[fns]\}', '{}', nest)
    for texts in itertools.product(*choices):
        yield template.format(*texts)


def is_obsolete(text):
    """Decided by the package itself: are warnings issued?"""
    return bool(execute('r = ' + text + '\n')[1])


NEST_CONTEXTS = ['r = {0}', 'r = ident(k={0})', 'if c:\n    r = [{0}]  # c']


def brief(tier):
    return brief_forms()


def programs(tier):
    """Groups of programs: (group, index)."""
    n = len(forms())
    for i in range(n):
        yield ('form', i)
    b = len(brief_forms())
    for i in range(b):
        yield ('pair', i)
    for i in range(len(NESTS)):
        yield ('nest', i)
    for i in range(len(SET_OWNERS)):
        yield ('set', i)
    yield ('imports', 0)
    if tier == 'thorough':
        for i in range(len(CONTEXTS)):
            yield ('inside', i)
        for i in range(b):
            yield ('triple', i)


def tasks(tier):
    out = []
    for group, i in programs(tier):
        out.append([group, i, tier])
    for opts in CLI:
        out.append(['cli', opts, tier])
    return out


def run_task(task, ctx):
    group, i, tier = task
    if group == 'cli':
        case = ['cli', i]
        with ctx.case(case):
            check_cli(i, ctx)
        ctx.sample(case)
        return
    for case in cases(group, i, tier):
        with ctx.case(case):
            run_case(case, ctx)
        ctx.sample(case)
        if ctx.full:
            break


def indent(program, by='    '):
    return ''.join((by + line if line.strip() else line)
                   for line in program.splitlines(True))


def cases(group, i, tier):
    if group == 'form':
        form = forms()[i]
        contexts = CONTEXTS
        if tier == 'quick' and i % 8 and not is_brief(form):
            # One in eight forms in all contexts, others in each eighth context
            contexts = [c for j, c in enumerate(CONTEXTS)
                        if j == 0 or j % 8 == i % 8]
        for c in contexts:
            yield ['context', c, list(form), None]
    elif group == 'pair':
        for c in PAIR_CONTEXTS:
            for b in brief_forms():
                yield ['context', c, list(brief_forms()[i]), list(b)]
    elif group == 'nest':
        for text in expand(NESTS[i], tier == 'thorough'):
            contexts = NEST_CONTEXTS if tier == 'thorough' else (
                NEST_CONTEXTS[:1])
            for c in contexts:
                yield ['nest', c, text]
    elif group == 'set':
        for arg in SET_ARGS:
            for c in SET_STATEMENTS:
                yield ['set', c, SET_OWNERS[i], arg, True]
            for c in SET_EXPRESSIONS:
                yield ['set', c, SET_OWNERS[i], arg, False]
        for arg in KEPT_ARGS:
            for c in SET_STATEMENTS+SET_EXPRESSIONS:
                yield ['kept', c, SET_OWNERS[i], arg]
    elif group == 'imports':
        for j in range(len(IMPORTS)):
            for name in ('ufloat("1(2)")', 'unc.ufloat("1(2)", "t")',
                         'ufloat((1, 0.1))', 'ufloat_fromstr("1(2)")',
                         'ufloat(1, 0.1)'):
                for c in CONTEXTS[:60]:
                    if 'obj' not in c and 'd[' not in c and 'd.' not in c:
                        yield ['imports', j, name, c]
    elif group == 'inside':
        for d in CONTEXTS:
            if GLUED in CONTEXTS[i] + d:
                continue
            for form in brief_forms()[::3]:
                yield ['inside', CONTEXTS[i], d, list(form)]
    elif group == 'triple':
        for a in brief_forms():
            for b in brief_forms():
                yield ['triple', i, list(a), list(b)]


def is_brief(form):
    return form in brief_forms()


def run_case(case, ctx):
    kind = case[0]
    if kind == 'context':
        check_context(case[1], tuple(case[2]), case[3] and tuple(case[3]), ctx)
    elif kind == 'nest':
        text = case[2]
        obsolete = is_obsolete(text)
        expected = (fill(case[1], convert_expr(text)) if obsolete
                    else fill(case[1], text))
        check_program(fill(case[1], text), expected, obsolete, ctx)
    elif kind == 'set':
        context, owner, arg, statement = case[1:]
        text = owner + '.set_std_dev' + arg
        expected = None
        if not statement:
            expected = fill(context, convert_expr(text))
        else:
            expected = fill(context, convert(text + '\n')[:-1], '')
        check_program(fill(context, text, ''), expected, True, ctx)
    elif kind == 'kept':
        context, owner, arg = case[1:]
        check_kept(fill(context, owner+'.set_std_dev'+arg, ''), ctx)
    elif kind == 'imports':
        check_imports(case, ctx)
    elif kind == 'inside':
        outer, inner, form = case[1:]
        check_inside(outer, inner, form, ctx)
    elif kind == 'triple':
        i, a, b = case[1:]
        first = brief_forms()[i]
        texts = [first, a, b]
        template = ('r = [{0},\n    {1}]\n# c\nclass A:\n    "d"\n    q = {2}\n'
                    'q = A.q')
        check_program(fill(template, *[t[0] for t in texts]),
                      fill(template, *[convert_expr(t[0]) for t in texts]),
                      any(t[1] for t in texts), ctx)
    elif kind == 'cli':
        check_cli(case[1], ctx)
    else:
        raise ValueError(kind)


def check_inside(outer, inner, form, ctx):
    """A context in an function definition, and another one after it."""
    template = ('def outer_f(r=None):\n' + indent(inner) +
                '\n    return r\nq0 = outer_f()\n' + outer)
    if 'global r' in inner:
        template = template.replace('(r=None)', '()')
    # Multi-line strings and continuation lines are indented too, consistently
    # in the original and expected programs.
    check_program(fill(template, form[0]),
                  fill(template, convert_expr(form[0])), form[1], ctx)


def check_imports(case, ctx):
    j, text, context = case[1:]
    before, after = IMPORTS[j]
    needs_unc = 'unc.' in text
    has_fromstr = '*' in before or 'fromstr' in before
    if needs_unc != ('as unc' in before):
        return
    if 'fromstr' in text and not has_fromstr:
        return
    rest = fill(context, text)
    obsolete = text in ('ufloat("1(2)")', 'unc.ufloat("1(2)", "t")',
                        'ufloat((1, 0.1))')
    head = ('c = True\nd = {}\n'
            'def ident(*args, **kwargs): return args[0] if args else None\n')
    expected = fill(context, convert_expr(text))
    if text == 'ufloat("1(2)")' and after:
        expected = after + head + expected
    else:
        expected = before + head + expected
    check_program(before + head + rest, expected, obsolete, ctx, True)


# ---------------------------------------------------------------------------
# Command line

CLI = ['-w', '-w -n', '', '-w -f ufloat', '-w -x std_dev', '-l', '-w -j 2',
       'file', 'again', 'nothing']

CLI_FORMS = [('ufloat((1, 0.1))', 'ufloat(1, 0.1)', 'ufloat'),
             ('unc.ufloat("1(2)", "tag")', 'unc.ufloat_fromstr("1(2)", "tag")',
              'ufloat'),
             ('unumpy.uarray((v, s))', 'unumpy.uarray(v, s)',
              'uarray_umatrix'),
             ('umatrix(t)', 'umatrix(*t)', 'uarray_umatrix'),
             ('x.std_dev()', 'x.std_dev', 'std_dev'),
             ('m.std_devs()', 'm.std_devs', 'std_devs'),
             ('ufloat(1, 0.1)', None, None), ('x.std_dev', None, None),
             ('"ufloat((1, 2))"', None, None)]
CLI_TEMPLATES = ['r = {0}\n', 'r = {0}', '\n# \u00e9\nr = [{0},\n  "\u00e8"]\n',
                 'if 1:\n\tr = {0}\t# c\n\n\n']
ENCODINGS = [('utf-8', '# coding: utf-8\n'), ('latin-1', '# coding: latin-1\n'),
             ('utf-8-sig', ''), ('utf-8', '')]
ENDINGS = ['\n', '\r\n']


def cli_files(active):
    """{path: (content, converted content)}, as bytes."""
    out = {}
    for i, (old, new, fixer) in enumerate(CLI_FORMS):
        for j, template in enumerate(CLI_TEMPLATES):
            for k, (encoding, cookie) in enumerate(ENCODINGS):
                for n, ending in enumerate(ENDINGS):
                    name = '%s/f%d_%d_%d_%d.py' % (
                        ['.', 'sub', 'sub/deep'][(i+j+k+n) % 3], i, j, k, n)
                    name = os.path.normpath(name)
                    texts = [cookie + template.format(t) for t in (
                        old, new if new and fixer in active else old)]
                    out[name] = tuple(t.replace('\n', ending).encode(encoding)
                                      for t in texts)
    out['notes.txt'] = (b'ufloat((1, 2))\n',)*2
    out['sub/noext'] = (b'x.std_dev()\n',)*2
    return out


def snapshot(folder):
    out = {}
    for base, _, names in os.walk(folder):
        for name in names:
            path = os.path.join(base, name)
            with open(path, 'rb') as f:
                out[os.path.relpath(path, folder)] = f.read()
    return out


def check_cli(mode, ctx):
    folder = tempfile.mkdtemp(prefix='mc-1to2-')
    try:
        run_cli(mode, folder, ctx)
    finally:
        shutil.rmtree(folder, ignore_errors=True)


def command(args, folder):
    environ = dict(os.environ, PYTHONPATH=env.REPO, PYTHONWARNINGS='ignore',
                   PYTHONDONTWRITEBYTECODE='1', PYTHONIOENCODING='utf-8',
                   PYTHONPYCACHEPREFIX=folder + '-nocache')
    return subprocess.run(
        [sys.executable, '-m', 'uncertainties.1to2'] + args, cwd=folder,
        env=environ, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
        stderr=subprocess.PIPE, timeout=300)


def run_cli(mode, folder, ctx):
    everything = ['ufloat', 'uarray_umatrix', 'std_dev', 'std_devs']
    active = everything
    if mode == '-l':
        p = command(['-l'], folder)
        require(p.returncode == 0, '-l: %r', p.stderr)
        names = p.stdout.decode().split()
        for name in everything:
            require(name in names, '-l does not list %s: %r', name, names)
        ctx.transitions += 1
        ctx.traces += 1
        ctx.state('-l')
        return
    if '-f' in mode:
        active = ['ufloat']
    elif '-x' in mode:
        active = ['ufloat', 'uarray_umatrix', 'std_devs']
    files = cli_files(active)
    if mode == 'nothing':
        files = {k: v for k, v in files.items() if v[0] == v[1]}
    for name, (old, _) in files.items():
        path = os.path.join(folder, name)
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, 'wb') as f:
            f.write(old)
    if mode in ('again', 'nothing'):
        args = ['-w', '.']
    elif mode == 'file':
        chosen = sorted(n for n in files if n.endswith('.py'))[::7]
        args = ['-w'] + chosen
        files = {n: (old, new if n in chosen else old)
                 for n, (old, new) in files.items()}
    else:
        args = mode.split() + ['.']
    p = command(args, folder)
    require(p.returncode == 0, '1to2 %s: exit code %s, %r', args, p.returncode,
            p.stderr[-500:])
    after = snapshot(folder)
    if mode == 'again':
        for name in after:
            if name.endswith('.bak'):
                os.remove(os.path.join(folder, name))
        p = command(args, folder)
        require(p.returncode == 0, 'second conversion: %r', p.stderr[-500:])
        after2 = snapshot(folder)
        after = {n: t for n, t in after.items() if not n.endswith('.bak')}
        require(after2 == after, 'the second conversion changed %s',
                sorted(n for n in set(after) | set(after2)
                       if after.get(n) != after2.get(n))[:5])
    writes = '-w' in args
    for name, (old, new) in files.items():
        require(after.get(name) == (new if writes else old),
                '1to2 %s: %s: %r became %r, not %r', args, name, old,
                after.get(name), new if writes else old)
        backup = after.get(name + '.bak')
        wanted = (old if writes and new != old and '-n' not in args
                  and mode != 'again' else None)
        require(backup == wanted, '1to2 %s: backup of %s: %r, not %r', args,
                name, backup, wanted)
        ctx.state((mode, name))
        ctx.transitions += 1
    extra = set(after) - set(files) - {n + '.bak' for n in files}
    require(not extra, '1to2 %s created %s', args, sorted(extra))
    if not writes:
        diff = p.stdout.decode('utf-8', 'replace')
        for old, new, _ in CLI_FORMS:
            if new:
                require('+r = ' + new in diff, 'no difference printed for %s',
                        old)
    ctx.traces += 1
    ctx.outcome('command line')


def replay(case, ctx):
    run_case(case, ctx)
