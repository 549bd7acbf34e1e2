#!/usr/bin/env python3
"""mkseed.py ID PROPERTY FILE <<< json {old,new,needs,breaks,demo}: writes seeded/ID from a textual edit of /repo (in a scratch clone)"""
import json, os, subprocess, sys, tempfile, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def seed(sid, prop, edits, needs, breaks, demo):
    w = tempfile.mkdtemp(prefix='mk-', dir='/tmp')
    try:
        r = w + '/r'
        subprocess.check_call(['git', 'clone', '-q', '/repo', r])
        for f, old, new in edits:
            s = open(f'{r}/{f}').read()
            assert s.count(old) == 1, (sid, f, s.count(old), old)
            open(f'{r}/{f}', 'w').write(s.replace(old, new))
        diff = subprocess.check_output(['git', 'diff'], cwd=r, text=True)
        assert diff
        d = f'{V}/seeded/{sid}'
        os.makedirs(d, exist_ok=True)
        open(d + '/patch.diff', 'w').write(diff)
        json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
        open(d + '/demo.py', 'w').write('import os, sys, io, contextlib\nsys.path.insert(0, os.getcwd())\n' + demo.lstrip('\n'))
        open(d + '/demo.sh', 'w').write('#!/bin/bash\nPYTHONDONTWRITEBYTECODE=1 exec /opt/venv/bin/python "$(dirname "$0")/demo.py" > /dev/null\n')
    finally:
        shutil.rmtree(w)
