#!/usr/bin/env python
"""check.py ID [--tier quick|thorough] [--replay FILE]: decide one property."""
import importlib
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

from mc import env  # noqa: E402


def main():
    env.reexec_clean()
    args = sys.argv[1:]
    prop = args.pop(0)
    if prop == '--selftest':
        env.load()
        from mc import num
        assert num.same(num.NAN, num.NAN) and not num.same(0.0, -0.0)
        print('ready: %s, mpmath %s' % (sys.version.split()[0],
                                        num.mp.libmp.BACKEND))
        return
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    replay = None
    while args:
        a = args.pop(0)
        if a == '--tier':
            tier = args.pop(0)
        elif a == '--replay':
            replay = args.pop(0)
        else:
            sys.exit('unknown argument %r' % a)
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    from mc import run
    if prop == 'C16':
        from mc import sched
        sched.patch_locks()
    env.load_or_report(prop)
    try:
        module = importlib.import_module('props.' + prop.lower())
    except Exception as exc:
        import traceback
        traceback.print_exc()
        env.report_import(prop, exc)
    sys.stdout.flush()
    rc = run.main(module, tier, seed, replay)
    sys.stdout.flush()
    sys.exit(rc)


if __name__ == '__main__':
    main()
