#!/usr/bin/env python3-vt
"""Development helper (no check uses it): make a planted bug from a spec file, validate it in a scratch copy, run the check of its property on it.

spec file (python): ID, PROPERTY, NEEDS, BREAKS, EDITS = [(file, old, new)], DEMO = python text"""
import json, os, shutil, subprocess, sys, tempfile
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def main(spec):
    ns = {}; exec(open(spec).read(), ns)
    d = os.path.join(H, 'seeded', ns['ID']); os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp(prefix='seedw.')
    try:
        shutil.copytree('/repo', w + '/r', symlinks=True)
        r = w + '/r'
        for f, a, b, *k in ns['EDITS']:     # k: which occurrence, when there are several
            s = open(r + '/' + f).read(); parts = s.split(a); k = k[0] if k else 0
            assert len(parts) == 2 or k and len(parts) > k, (f, len(parts) - 1, a)
            if len(parts) == 2: k = 1
            open(r + '/' + f, 'w').write(a.join(parts[:k]) + b + a.join(parts[k:]))
        diff = sh('git diff', cwd=r).stdout
        open(d + '/patch.diff', 'w').write(diff)
        open(d + '/demo.py', 'w').write(ns['DEMO'].lstrip('\n'))
        open(d + '/demo.sh', 'w').write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD"\nexec timeout 120 python3 "$(dirname "$0")/demo.py"\n')
        os.chmod(d + '/demo.sh', 0o755)
        json.dump({'property': ns['PROPERTY'], 'needs': ns['NEEDS'], 'what_it_breaks': ns['BREAKS']}, open(d + '/meta.json', 'w'), indent=1)
        a = sh('bash %s/demo.sh' % d, cwd='/repo'); b = sh('bash %s/demo.sh' % d, cwd=r)
        print(ns['ID'], 'demo clean', a.returncode, 'patched', b.returncode, (a.stderr[-300:] if a.returncode else ''), b.stderr[-150:].replace('\n', ' | '))
        if '--notest' not in sys.argv:
            t = sh('cd %s && /opt/venv/bin/python -m pytest -q -n 8 --timeout=300 -p no:cacheprovider test_cases.py 2>&1 | tail -5' % r)
            print('tests:', t.stdout.strip().split('\n')[-1])
        ok = a.returncode == 0 and b.returncode != 0
        return ok
    finally: shutil.rmtree(w)
if __name__ == '__main__':
    for s in sys.argv[1:]:
        if not s.startswith('--'): main(s)
