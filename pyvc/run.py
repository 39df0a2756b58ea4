#!/usr/bin/env python3
"""run.py PID [--tier quick|thorough]: generate and discharge the obligations of one property."""
import sys, os, json, time, argparse, importlib
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [HERE, os.path.join(os.path.dirname(HERE), 'contracts')]
sys.setrecursionlimit(20000)
import vf

ap = argparse.ArgumentParser()
ap.add_argument('pid')
ap.add_argument('--tier', default='quick')
ap.add_argument('--only')
ap.add_argument('--limit', type=float, help='seconds for the solvers')
a = ap.parse_args()
fn = os.path.join(os.path.dirname(HERE), 'contracts', a.pid.lower() + '.py')
if not os.path.exists(fn):
    print(json.dumps({'obligations': [], 'bounded': [], 'error': 'no contracts for this property'}))
    sys.exit(0)
m = importlib.import_module(a.pid.lower())
units = [(u[0], u[1], u[2] if len(u) > 2 else {}) for u in m.UNITS]
if a.only:
    units = [u for u in units if a.only in u[0]]
out = vf.run_units(units, a.tier, time.time() + (a.limit or (200 if a.tier == 'quick' else 1200)), again=a.limit is None)
out['assumptions'] = list(getattr(m, 'ASSUMPTIONS', [])) + out['assumptions']
print(json.dumps(out, default=str))
