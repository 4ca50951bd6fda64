#!/usr/bin/env python3
"""Development helper: run the repository's tests with each planted bug in a scratch copy."""
import json, os, shutil, subprocess, sys, tempfile
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
for i in sys.argv[1:] or sorted(os.listdir(H + '/seeded')):
    w = tempfile.mkdtemp(prefix='seedt.')
    shutil.copytree('/repo', w + '/r', symlinks=True)
    a = subprocess.run(['git', 'apply', '%s/seeded/%s/patch.diff' % (H, i)], cwd=w + '/r')
    subprocess.run('PYTHONDONTWRITEBYTECODE=1 TZ=UTC PYTHONHASHSEED=0 /opt/venv/bin/python -m pytest -q -p no:cacheprovider -n 8 --timeout=300 -o junit_family=xunit2 --junitxml=%s/j.xml test_cases.py >/dev/null 2>&1; python3 /opt/vp/results.py %s/o.json junit:%s/j.xml >/dev/null' % (w, w, w), shell=True, cwd=w + '/r')
    try: miss = stable - set(json.load(open(w + '/o.json'))['passed'])
    except Exception as e: miss = {repr(e)}
    print(i, 'applies' if a.returncode == 0 else 'DOES NOT APPLY', 'tests ok' if not miss else 'TESTS FAIL %d %s' % (len(miss), list(miss)[:2]), flush=True)
    shutil.rmtree(w)
