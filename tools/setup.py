#!/usr/bin/env python3
"""Toolchain sanity: every specification parses; the interpreter of the repository imports it."""
import glob, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import vlib
for f in sorted(glob.glob(os.path.join(V, 'spec', '*.tla'))):
    r = subprocess.run(['java', '-cp', vlib.JAR, 'tla2sany.SANY', os.path.basename(f)], cwd=os.path.join(V, 'spec'), capture_output=True, text=True)
    if r.returncode != 0:
        print(r.stdout[-2000:])
        sys.exit(1)
sys.exit(subprocess.call([vlib.PYPY, '-c', 'import sympy'], env=dict(os.environ, PYTHONDONTWRITEBYTECODE='1')))
