"""C21: the package behaves identically in all configurations.

A configuration is (interpreter options, presence of NumPy, hash seed, way and
order of importing, thread in which the import takes place, current directory).
In each configuration a fresh interpreter (this file, run as a program) executes
the same exhaustive set of small programs and prints a transcript, which must be
the one of the reference configuration; the exported names are compared with
the documented ones.
"""
import itertools
import json
import os
import subprocess
import sys
import tempfile

ID = 'C21'
LEVEL = 'model_checking'
RULE = ('a state is a distinct (configuration, program); a transition is one '
        'program executed in one configuration; a trace is one fresh '
        'interpreter whose whole transcript is the one of the reference '
        'configuration')
ASSUMPTIONS = ['the reference configuration itself is the object of the other '
               'properties']

OPTIONS = {
    'plain': [], '-O': ['-O'], '-OO': ['-OO'], '-bb': ['-bb'],
    # NumPy itself warns about its matrices
    '-W error': ['-W', 'error', '-W', 'ignore::PendingDeprecationWarning'],
    '-X dev': ['-X', 'dev', '-W', 'error', '-W',
               'ignore::PendingDeprecationWarning'],
    'utf8': ['-X', 'utf8'], 'no utf8': ['-X', 'utf8=0'],
    'frozen off': ['-X', 'frozen_modules=off'],
    'no int limit': ['-X', 'int_max_str_digits=640'],
}
IMPORTS = {
    'U': 'import uncertainties', 'M': 'import uncertainties.umath',
    'N': 'import uncertainties.unumpy', 'n': 'import numpy',
    'L': 'import uncertainties.unumpy.ulinalg',
    'C': 'import uncertainties.core', 'c': 'import uncertainties.umath_core',
    'u': 'import uncertainties.unumpy.core',
    '*': 'from uncertainties import *',
    'm': 'from uncertainties.umath import *',
    'a': 'from uncertainties.unumpy import *',
    'f': 'from uncertainties import umath, ufloat, unumpy',
    'x': 'from uncertainties import umath, ufloat',
}
NEED_NUMPY = set('NnLuaf')

# Documented names
TOP = ['ufloat', 'ufloat_fromstr', 'nominal_value', 'std_dev',
       'covariance_matrix', 'UFloat', 'wrap']
TOP_NUMPY = ['correlated_values', 'correlated_values_norm',
             'correlation_matrix']
UMATH = ('acos acosh asin asinh atan atan2 atanh ceil copysign cos cosh '
         'degrees erf erfc exp expm1 fabs factorial floor fmod frexp fsum '
         'gamma hypot isinf isnan ldexp lgamma log log10 log1p modf pow '
         'radians sin sinh sqrt tan tanh trunc').split()
UNUMPY = ('arccos arccosh arcsin arcsinh arctan arctan2 arctanh ceil copysign '
          'cos cosh degrees erf erfc exp expm1 fabs floor fmod gamma hypot '
          'isinf isnan ldexp lgamma log log10 log1p modf pow radians sin sinh '
          'sqrt tan tanh trunc uarray umatrix nominal_values std_devs matrix '
          'ulinalg').split()


########################################
# In the fresh interpreter

def show(x, un):
    """Values and derivatives, as plain data."""
    if isinstance(x, un.UFloat):
        return ['U', float(x.nominal_value), float(x.std_dev),
                sorted(float(d) for d in x.derivatives.values())]
    if isinstance(x, (list, tuple)):
        return [show(y, un) for y in x]
    if isinstance(x, (bool, str, int)) or x is None:
        return x
    if isinstance(x, float):
        return ['F', x]
    if hasattr(x, 'tolist'):
        return [type(x).__name__, list(getattr(x, 'shape', ())),
                show(x.tolist(), un)]
    return type(x).__name__


def scalar_programs(un, um):
    """(name, function) for all programs without NumPy."""
    import copy
    import operator
    import pickle
    values = {'x': lambda: un.ufloat(1.5, 0.25), 'y': lambda: un.ufloat(
        -2.0, 0.5, 'tag'), 'x+y': None, 'exact': lambda: un.ufloat(3, 0),
        'nan': lambda: un.ufloat(1, float('nan')), '2': lambda: 2,
        '0.5': lambda: 0.5, 'zero': lambda: un.ufloat(0, 0.125),
        'big': lambda: un.ufloat(1e200, 1e199)}

    def operands():
        made = {k: f() for k, f in values.items() if f}
        made['x+y'] = made['x']+made['y']
        return made
    binary = ['add', 'sub', 'mul', 'truediv', 'floordiv', 'mod', 'pow', 'eq',
              'ne', 'lt', 'le', 'gt', 'ge']
    for op in binary:
        for a in values:
            for b in values:
                if a in ('2', '0.5') and b in ('2', '0.5'):
                    continue

                def f(op=op, a=a, b=b):
                    o = operands()
                    return getattr(operator, op)(o[a], o[b])
                yield '%s %s %s' % (op, a, b), f
    unary = {'neg': operator.neg, 'pos': operator.pos, 'abs': abs,
             'bool': bool, 'repr': repr, 'str': str,
             'copy': copy.copy, 'deepcopy': copy.deepcopy,
             'pickle': lambda v: pickle.loads(pickle.dumps(v)),
             'int': int, 'float': float, 'complex': complex,
             'nominal_value': un.nominal_value, 'std_dev': un.std_dev,
             'n': lambda v: v.n, 's': lambda v: v.s,
             'tag': lambda v: v.tag, 'components': lambda v: sorted(map(
                 float, v.error_components().values())),
             'score': lambda v: v.std_score(1), 'iter': list,
             'hash': lambda v: hash(v) == id(v),
             'wrap': lambda v: un.wrap(lambda t, k=2: t*t+k)(v, k=v),
             'wrap analytical': lambda v: un.wrap(
                 lambda t: t*t, [lambda t: 2*t])(v),
             'covariance': lambda v: un.covariance_matrix([v, 2*v, v*v]),
             'sum': lambda v: sum([v]*20), 'sorted': lambda v: sorted(
                 [v, 1, -v, v*2]),
             'call std_dev': lambda v: v.std_dev(),
             'set': lambda v: (setattr(v, 'std_dev', 2), v)[1],
             'negative': lambda v: setattr(v, 'std_dev', -1),
             'set_std_dev': lambda v: (v.set_std_dev(3), v)[1],
             'position_in_sigmas': lambda v: v.position_in_sigmas(1)}
    for name, g in unary.items():
        for a in values:
            if a not in ('2', '0.5'):
                yield '%s %s' % (name, a), lambda g=g, a=a: g(operands()[a])
    for spec in ('', '.2f', 'e', '.3e', 'g', '+010.3f', 'S', 'L', 'P', 'p',
                 '%', 'SL', '.1uS', 'u', '.3ueP', '*^30', '<20', 'Z', 'ppp',
                 ',', 'n', 'd', '_', 'E', 'F'):
        for a in values:
            if a not in ('2', '0.5'):
                yield 'format %r %s' % (spec, a), (
                    lambda spec=spec, a=a: format(operands()[a], spec))
    for text in ('1.2(3)', '1.2+/-0.3', '(1.2+/-0.3)e5', u'1.2±0.3',
                 u'(1.2±0.3)×10⁻³', '12', '1.', 'nan+/-inf', '', '1(2', 'a',
                 '-1.2(.3)e-5', '1.2 +/- 0.3', '1.2(nan)', '1e5(2)'):
        yield 'fromstr %s' % text.encode('unicode_escape').decode(), (
            lambda text=text: un.ufloat_fromstr(text))
    for name in UMATH:
        for args in (('x',), ('y',), ('exact',), ('0.5',), ('x+y',),
                     ('x', 'y'), ('x', '2'), ('0.5', 'y'), ('nan',),
                     ('zero',)):
            yield '%s%s' % (name, args), (
                lambda name=name, args=args: getattr(um, name)(
                    *[operands()[a] for a in args]))
    for args in ((1,), (1, 2), (1, 2, 't'), ('1(2)',), ((1, 2),), (1, -1),
                 ('a', 1), (1, 'a'), (None, 1), (), (1.5, float('inf')),
                 (True, False), ((1, 2), 't'), ([1], 2), (1j, 1)):
        yield 'ufloat%r' % (args,), lambda args=args: un.ufloat(*args)


def array_programs(un, np, unp):
    ul = unp.ulinalg

    def a():
        x = un.ufloat(0.25, 0.0625)
        r = unp.uarray([[0.5, 0.25], [-0.5, 0.75]],
                       [[0.125, 0], [0.25, 0.0625]])
        r[0, 0] = x
        r[1, 1] = 2*x+r[1, 0]+0.25
        return r
    for name in UNUMPY[:-6]:
        yield 'unumpy.%s' % name, lambda name=name: getattr(unp, name)(
            1.5+a() if name == 'arccosh' else abs(a()))
        yield 'unumpy.%s two' % name, lambda name=name: getattr(unp, name)(
            abs(a()), *([2] if name in (
                'arctan2', 'copysign', 'fmod', 'hypot', 'ldexp', 'log', 'pow'
            ) else []))
    for name, f in {
            'uarray': a, 'umatrix': lambda: unp.umatrix([[1, 2]], [[3, 4]]),
            'legacy': lambda: unp.uarray(([1, 2], [3, 4])),
            'nominal_values': lambda: unp.nominal_values(a()),
            'std_devs': lambda: unp.std_devs(a()),
            'matrix': lambda: unp.matrix(a()),
            'matrix devs': lambda: unp.matrix(a()).std_devs,
            'matrix call': lambda: unp.matrix(a()).std_devs(),
            'inverse': lambda: unp.matrix(a()).I,
            'power': lambda: unp.matrix(a())**2,
            'inverse power': lambda: unp.matrix(a())**-1,
            'product': lambda: unp.matrix(a())*a(),
            'inv': lambda: ul.inv(a()), 'pinv': lambda: ul.pinv(a()),
            'pinv rect': lambda: ul.pinv(a()[:1]),
            'correlated': lambda: un.covariance_matrix(un.correlated_values(
                [1, 2], [[2, 0.5], [0.5, 1]])),
            'correlated norm': lambda: un.covariance_matrix(
                un.correlated_values_norm([(1, 2), (2, 3)],
                                          [[1, 0.5], [0.5, 1]])),
            'correlation': lambda: un.correlation_matrix(
                list(a().flat)[2:]),
            'sum': lambda: a().sum(), 'mean': lambda: a().mean(axis=0),
            'comparison': lambda: a() > 0.3, 'dot': lambda: a().dot(a()),
            'float64': lambda: np.float64(2)*a()[0, 0],
            'array times': lambda: np.arange(2)*a()[1, 1],
            'repr': lambda: repr(a()), 'str': lambda: str(a()),
            'max': lambda: a().max(), 'sort': lambda: np.sort(a())}.items():
        yield 'arrays %s' % name, f


def transcript(programs, un):
    out = []
    for name, f in programs:
        try:
            r = show(f(), un)
        except Warning as exc:  # -W error
            r = 'warning %s' % (str(exc).split('.')[0][:40])
        except Exception as exc:
            r = 'exception %s' % type(exc).__name__
        out.append([name, r])
    return out


def child(config):
    import importlib
    import warnings
    if config['seterr']:
        import numpy
        numpy.seterr(all=config['seterr'])
    if not config['numpy']:
        sys.modules['numpy'] = None
    sys.dont_write_bytecode = True
    sys.path.insert(0, config['repo'])
    space = {}
    names = {}

    def imports():
        for letter in config['imports']:
            local = {}
            exec(IMPORTS[letter], local)
            local.pop('__builtins__')
            if 'import *' in IMPORTS[letter]:
                names[letter] = sorted(local)
            space.update(local)
    if config['thread']:
        import threading
        errors = []

        def run():
            try:
                imports()
            except BaseException as exc:
                errors.append(exc)
        t = threading.Thread(target=run)
        t.start()
        t.join()
        if errors:
            raise errors[0]
    else:
        imports()
    un = importlib.import_module('uncertainties')
    um = importlib.import_module('uncertainties.umath')
    here = os.path.realpath(os.path.dirname(un.__file__))
    if here != os.path.realpath(os.path.join(config['repo'],
                                             'uncertainties')):
        raise SystemExit('wrong package %s' % here)
    result = {'all': {'uncertainties': list(un.__all__),
                      'umath': list(um.__all__)}, 'star': names}
    result['missing'] = [n for n in un.__all__ if not hasattr(un, n)] + [
        n for n in um.__all__ if not hasattr(um, n)]
    if config['numpy']:
        import numpy
        unp = importlib.import_module('uncertainties.unumpy')
        result['all']['unumpy'] = list(unp.__all__)
        result['missing'] += [n for n in unp.__all__ if not hasattr(unp, n)]
    else:
        try:
            importlib.import_module('uncertainties.unumpy')
            result['missing'].append('unumpy without NumPy')
        except ImportError:
            pass
    # Deprecations are not errors in the programs
    error = any(f[0] == 'error' for f in warnings.filters)
    with warnings.catch_warnings(record=not error) as w:
        if not error:
            warnings.simplefilter('always')
        result['scalar'] = transcript(scalar_programs(un, um), un)
        if config['numpy']:
            result['arrays'] = transcript(array_programs(un, numpy, unp), un)
    result['warnings'] = sorted({str(x.message).split('.')[0][:40]
                                 for x in w or ()})
    json.dump(result, sys.stdout)


########################################

REFERENCE = {'options': 'plain', 'numpy': True, 'seed': '0', 'imports': 'U',
             'thread': False, 'seterr': '', 'cwd': '/', 'run': 'path'}


def run(config):
    from mc import env
    data = dict(config, repo=os.path.realpath(env.REPO))
    environ = {k: v for k, v in os.environ.items()
               if not k.startswith('PYTHON')}
    environ.update(PYTHONHASHSEED=config['seed'], PYTHONDONTWRITEBYTECODE='1',
                   PYTHONNOUSERSITE='1', OPENBLAS_NUM_THREADS='1')
    if config['run'] == 'locale':
        environ.update(LC_ALL='C', PYTHONCOERCECLOCALE='0')
    with tempfile.TemporaryDirectory(prefix='mc-c21-') as tmp:
        environ['PYTHONPYCACHEPREFIX'] = tmp
        p = subprocess.run(
            [sys.executable]+OPTIONS[config['options']]+[
                os.path.abspath(__file__), json.dumps(data)],
            cwd=tmp if config['cwd'] == 'tmp' else config['cwd'],
            env=environ, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
            timeout=300)
    if p.returncode:
        return None, p.stderr.decode('utf-8', 'replace')[-1000:]
    return json.loads(p.stdout.decode()), ''


_reference = []


def reference():
    if not _reference:
        r, error = run(REFERENCE)
        if r is None:
            raise RuntimeError('reference configuration: '+error)
        _reference.append(r)
    return _reference[0]


def same(x, y):
    if isinstance(x, float) and isinstance(y, float):
        return x == y or (x != x and y != y) or abs(x-y) <= 1e-12*max(
            abs(x), abs(y), 1e-3)
    if isinstance(x, list) and isinstance(y, list):
        return len(x) == len(y) and all(map(same, x, y))
    return type(x) is type(y) and x == y


def check_config(config):
    from mc.run import require
    r, error = run(config)
    require(r is not None, 'failure in %r: %s', config, error)
    ref = reference()
    error = 'error' in OPTIONS[config['options']]
    for part in ('scalar', 'arrays') if config['numpy'] else ('scalar',):
        require(len(r[part]) == len(ref[part]), 'programs')
        for (name, x), (other, y) in zip(r[part], ref[part]):
            require(name == other, 'programs')
            if error and isinstance(x, str) and x.startswith('warning '):
                require(x[8:] in ref['warnings'], 'new warning %r in %s', x,
                        name)
                continue
            require(same(x, y), '%s: %r instead of %r', name, x, y)
    undocumented = [x for x in r['warnings'] if not x.startswith(
        ('Obsolete: ', 'the matrix subclass'))]
    require(not undocumented, 'warnings: %r', undocumented)
    require(not r['missing'], 'missing names: %r', r['missing'])
    top = set(TOP) | set(TOP_NUMPY if config['numpy'] else ())
    require(set(r['all']['uncertainties']) == top, 'names: %r',
            r['all']['uncertainties'])
    require(set(UMATH) <= set(r['all']['umath']), 'umath names: %r',
            set(UMATH)-set(r['all']['umath']))
    for letter, names in r['star'].items():
        module = {'*': 'uncertainties', 'm': 'umath', 'a': 'unumpy'}[letter]
        require(set(names) == set(r['all'][module]), 'star import: %r', names)
    if config['numpy']:
        require(set(UNUMPY) <= set(r['all']['unumpy']), 'unumpy names: %r',
                set(UNUMPY)-set(r['all']['unumpy']))
    return sum(len(r.get(p, ())) for p in ('scalar', 'arrays'))


def configurations(tier):
    base = dict(REFERENCE)
    out = []
    for options in OPTIONS:
        for numpy in (True, False):
            for seed in ('0', '1', '123') if tier == 'quick' else (
                    '0', '1', '2', '3', '123', '4294967295'):
                out.append(dict(base, options=options, numpy=numpy, seed=seed))
    orders = itertools.permutations('UMNn') if tier == 'quick' else (
        itertools.chain(itertools.permutations('UMNLnC'),
                        itertools.permutations('*maf', 4)))
    out += [dict(base, imports=''.join(o)) for o in orders]
    for letters in IMPORTS:
        out.append(dict(base, imports=letters))
        out.append(dict(base, imports=letters, thread=True))
    for a, b in itertools.permutations(IMPORTS, 2):
        for numpy in (True, False):
            if not numpy and {a, b} & NEED_NUMPY:
                continue
            if tier == 'thorough' or {a, b} & set('*ma') or not numpy:
                out.append(dict(base, imports=a+b, numpy=numpy))
    for seterr in ('ignore', 'warn', 'print', 'call'):
        out.append(dict(base, seterr=seterr))
    for cwd in ('tmp', '/usr'):
        for options in ('plain', '-O', '-X dev'):
            out.append(dict(base, cwd=cwd, options=options))
    out.append(dict(base, run='locale'))
    out.append(dict(base, run='locale', options='no utf8'))
    return out


def tasks(tier):
    return [['config', c] for c in configurations(tier)]


def run_task(task, ctx):
    case = ['config', task[1]]
    n = 0
    with ctx.case(case):
        n = check_config(task[1])
        ctx.outcome(task[1]['options']+(
            '' if task[1]['numpy'] else ' without NumPy'))
    for i in range(n):
        ctx.state((json.dumps(task[1], sort_keys=True), i))
    ctx.traces += 1
    ctx.transitions += n
    ctx.sample(case)


def replay(case, ctx):
    check_config(case[1])


if __name__ == '__main__':
    child(json.loads(sys.argv[1]))
