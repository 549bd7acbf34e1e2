#!/usr/bin/env python3
"""Confirm planted bugs in scratch copies of /repo: seedtest.py [--checks] [--notests] id...
A planted bug must apply, pass the stable tests, and its demo must tell the two trees apart."""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
from concurrent.futures import ThreadPoolExecutor


def sh(cmd, cwd, env=None, t=900):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0')
    e.update(env or {})
    try:
        r = subprocess.run(cmd, cwd=cwd, env=e, shell=True, capture_output=True, text=True, timeout=t)
        return r.returncode, r.stdout + r.stderr
    except subprocess.TimeoutExpired:
        return 'timeout', ''


def one(sid):
    d = os.path.join(V, 'seeded', sid)
    w = tempfile.mkdtemp(prefix='sd-', dir='/tmp')
    res = [sid]
    try:
        r = os.path.join(w, 'repo')
        sh(f'git clone -q /repo {r}', '/tmp')
        meta = json.load(open(os.path.join(d, 'meta.json')))
        rc0, _ = sh(f'bash {d}/demo.sh', r, t=300)
        rc, out = sh(f'git apply {d}/patch.diff', r)
        if rc:
            return f'{sid}: DOES NOT APPLY {out}'
        rc1, o1 = sh(f'bash {d}/demo.sh', r, t=300)
        res.append(f'demo {rc0}->{rc1}' + ('' if rc0 == 0 and rc1 not in (0,) else '  BAD DEMO'))
        if '--notests' not in sys.argv:
            sh(f'/opt/venv/bin/python -m pytest -q -p no:cacheprovider --timeout=300 --continue-on-collection-errors -o junit_family=xunit2 --junitxml={w}/j.xml tests', r)
            sh(f'/usr/bin/python3 /opt/vp/results.py {w}/o.json junit:{w}/j.xml', r)
            o = json.load(open(f'{w}/o.json'))
            miss = set(json.load(open('/opt/vp/BASELINE.json'))['stable']) - set(o['passed'])
            res.append('tests ok' if not miss else f'TESTS FAIL {sorted(miss)[:5]}')
        if '--checks' in sys.argv:
            for p in [meta['property']]:
                rc, out = sh(f'{sys.executable} {V}/check.py {p} quick', V, {'VERIF_REPO': r, 'VERIF_EVID': os.path.join(w, 'ev')})
                res.append(f'{p}: ' + ('caught' if rc == 1 and f'VIOLATION property={p}' in out else f'MISSED rc={rc}') +
                           ' [' + '; '.join(x.strip()[:110] for x in out.splitlines() if 'rejected' in x)[:240] + ']')
    except Exception as e:
        res.append(repr(e))
    finally:
        shutil.rmtree(w, ignore_errors=True)
    return ' | '.join(res)


ids = [a for a in sys.argv[1:] if not a.startswith('--')] or sorted(os.listdir(os.path.join(V, 'seeded')))
with ThreadPoolExecutor(2) as ex:
    for x in ex.map(one, ids):
        print(x, flush=True)
