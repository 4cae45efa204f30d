#!/usr/bin/env python3
"""mkseed.py <spec.py>: writes seeded/<id>/ from a description (not used by any check)."""
import json
import os
import subprocess
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def seed(id, prop, edits, needs, breaks, demo, files={}):
    assert subprocess.check_output(['git', '-C', '/repo', 'status', '--porcelain', '-uno']) == b''
    d = os.path.join(V, 'seeded', id)
    os.makedirs(d, exist_ok=True)
    try:
        for f, old, new in edits:
            p = os.path.join('/repo', f)
            s = open(p).read()
            if s.count(old) != 1:
                raise SystemExit('%s: %d occurrences in %s of %r' % (id, s.count(old), f, old[:80]))
            open(p, 'w').write(s.replace(old, new))
        diff = subprocess.check_output(['git', '-C', '/repo', 'diff']).decode()
        base = subprocess.check_output(['git', '-C', '/repo', 'rev-list', '--max-parents=0', 'HEAD']).decode().strip()
        b = subprocess.check_output(['git', '-C', '/repo', 'blame', '-s', 'HEAD', '--', edits[0][0]]).decode()
    finally:
        subprocess.check_call(['git', '-C', '/repo', 'checkout', '-q', '--', '.'])
    # every removed line must be an original one
    for f in {e[0] for e in edits}:
        orig = subprocess.check_output(['git', '-C', '/repo', 'show', base + ':' + f]).decode().split('\n')
        for l in diff.split('\n'):
            if l.startswith('-') and not l.startswith('---') and l[1:].strip() and l[1:] not in orig:
                others = [x for g in {e[0] for e in edits} for x in subprocess.check_output(['git', '-C', '/repo', 'show', base + ':' + g]).decode().split('\n')]
                if l[1:] not in others:
                    print('WARNING %s: removed line is not original: %s' % (id, l))
    open(os.path.join(d, 'patch.diff'), 'w').write(diff)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
    open(os.path.join(d, 'demo.sh'), 'w').write(demo)
    for n, t in files.items():
        open(os.path.join(d, n), 'w').write(t)


HDR = '''#!/bin/bash
# compiles the program beside this file against the sources and library in the working directory
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 99
trap 'rm -rf "$t"' EXIT
'''
DEMO_H = HDR + '''g++ -std=c++17 -O1 -I. -I/usr/include/casacore "$here/demo.cc" -o "$t/demo" || exit 99
cd "$t" && timeout 120 ./demo
'''
DEMO_L = HDR + '''R=$PWD
g++ -std=c++17 -O1 -I. -I/usr/include/casacore "$here/demo.cc" -o "$t/demo" -L"$R/_build" -ldyscostman -Wl,-rpath,"$R/_build" -lcasa_ms -lcasa_tables -lcasa_casa -lpthread || exit 99
cd "$t" && timeout 200 ./demo
'''
if __name__ == '__main__':
    for a in sys.argv[1:]:
        exec(open(a).read())
