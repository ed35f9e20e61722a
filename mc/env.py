"""Loading of the code under test, always from the current working tree.

Nothing is ever read from, or written to, bytecode caches: a stale .pyc would
hide a change of the sources.
"""
import atexit
import os
import shutil
import sys
import tempfile

REPO = os.environ.get('MC_REPO', '/repo')
_HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
VERIF = _HERE


def reexec_clean():
    """Restart this interpreter with fixed hashing, no bytecode, one BLAS thread."""
    want = {'PYTHONHASHSEED': '0', 'PYTHONDONTWRITEBYTECODE': '1',
            'OPENBLAS_NUM_THREADS': '1', 'OMP_NUM_THREADS': '1',
            'PYTHONNOUSERSITE': '1', 'MC_CLEAN': '1'}
    if os.environ.get('MC_CLEAN') == '1':
        return
    env = dict(os.environ, **want)
    env.pop('PYTHONPATH', None)
    env.pop('PYTHONWARNINGS', None)
    os.execve(sys.executable, [sys.executable] + sys.argv, env)


def load():
    """Import the package under test from REPO; return nothing."""
    sys.dont_write_bytecode = True
    prefix = tempfile.mkdtemp(prefix='mc-pyc-')
    pid = os.getpid()

    def cleanup():
        if os.getpid() == pid:
            shutil.rmtree(prefix, ignore_errors=True)
    atexit.register(cleanup)
    sys.pycache_prefix = prefix  # empty: sources are always recompiled
    sys.path.insert(0, REPO)
    import warnings
    warnings.simplefilter('ignore')
    import uncertainties
    where = os.path.dirname(os.path.abspath(uncertainties.__file__))
    if os.path.realpath(where) != os.path.realpath(
            os.path.join(REPO, 'uncertainties')):
        raise RuntimeError('wrong package under test: %s' % where)


def mpmath():
    """The mpmath module of the tooling environment (reference arithmetic)."""
    try:
        import mpmath as m
    except ImportError:
        for base in ('/opt/veriftools/pyvenv/lib/python3.12/site-packages',):
            sys.path.append(base)
            try:
                import mpmath as m
                break
            except ImportError:
                pass
            finally:
                sys.path.remove(base)
        else:
            raise
    return m


def load_or_report(prop):
    """Like load(), but a package that cannot be imported is a violation."""
    try:
        load()
    except RuntimeError:
        raise
    except Exception as exc:
        report_import(prop, exc)


def report_import(prop, exc):
    import json
    folder = os.path.join(VERIF, 'replays')
    os.makedirs(folder, exist_ok=True)
    path = os.path.join(folder, '%s-import.json' % prop)
    with open(path, 'w') as f:
        json.dump({'property': prop, 'case': ['tasks', 'quick'],
                   'message': repr(exc)}, f)
    print('the package cannot be imported: %r' % exc)
    print('VIOLATION property=%s replay=%s' % (prop, path))
    sys.exit(1)
