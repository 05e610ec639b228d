#!/usr/bin/env python3
"""check.py <property> [quick|thorough] : decide one property on /repo's working tree."""
import os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vflib, registry


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    run = vflib.Run(pid, tier)
    spec = registry.CHECKS[pid]
    try:
        spec['run'](run)
    except vflib.CheckError as e:
        if not run.violations:
            print('ERROR %s: %s' % (pid, e)); return 2
        print('note: %s' % e)
    except Exception:
        if not run.violations:
            traceback.print_exc(); return 2
    run.assumptions = spec.get('assumptions', [])
    return run.finish(spec['level'], spec.get('rule'))


sys.exit(main())
