#!/usr/bin/env python3
"""run.py <property id>: runs the check of one property."""
import importlib
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(100000)
sys.dont_write_bytecode = True

from vfw.report import main  # noqa: E402
import registry  # noqa: E402

if __name__ == '__main__':
    p = sys.argv[1]
    if p == 'all':
        import subprocess
        import concurrent.futures as cf
        ids = sorted(registry.CHECKS)

        def one(i):
            return i, subprocess.run([sys.executable, __file__, i], capture_output=True, text=True)
        bad = 0
        with cf.ThreadPoolExecutor(6) as ex:
            for i, r in ex.map(one, ids):
                print('%-4s exit %d' % (i, r.returncode), r.stdout.splitlines()[0] if r.stdout else r.stderr[-300:])
                if r.returncode:
                    bad += 1
                    print(r.stdout[-3000:], r.stderr[-2000:])
        sys.exit(bad != 0)
    mod, fn, tech = registry.CHECKS[p]
    main(p, tech, getattr(importlib.import_module(mod), fn))
