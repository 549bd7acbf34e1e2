#!/usr/bin/env python3
"""Usage: check.py <property> <quick|thorough>"""
import os, sys, importlib, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib

if __name__ == '__main__':
    prop, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick'))
    seed = int(os.environ.get('VERIF_SEED', '1'))
    ctx = vlib.Ctx(prop, tier, seed)
    try:
        rc = importlib.import_module('checks.' + prop.lower()).run(ctx)
    except vlib.MachineryError as e:
        print('MACHINERY ERROR', e)
        sys.exit(2)
    sys.exit(rc)
