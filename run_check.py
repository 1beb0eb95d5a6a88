#!/opt/venv/bin/python
"""usage: run_check.py C01 [--tier quick|thorough] [--only GLOB] [-v] [-p N] [--replay FILE]"""
import os, sys
if os.environ.get('PYTHONHASHSEED') != '0':
    os.environ.update(PYTHONHASHSEED='0', MPLBACKEND='Agg', PYTHONDONTWRITEBYTECODE='1', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1')
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.dont_write_bytecode = True
ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, ROOT)
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
sys.setrecursionlimit(20000)
import argparse, importlib
ap = argparse.ArgumentParser()
ap.add_argument('property'); ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
ap.add_argument('--only'); ap.add_argument('-v', action='count', default=0); ap.add_argument('-p', type=int)
ap.add_argument('--replay'); ap.add_argument('--list', action='store_true')
a = ap.parse_args()
from symx import runner
seed = int(os.environ.get('VERIF_SEED') or 1)
mod = importlib.import_module('checks.' + a.property.lower())
if a.tier not in ('quick', 'thorough'): a.tier = 'quick'
cases = mod.cases(a.tier, seed)
if a.list:
    for c in cases: print(c.tier, c.name)
    sys.exit(0)
if a.replay: sys.exit(runner.replay(a.replay, cases))
code = runner.main(a.property, cases, mod.META, a.tier, seed, only=a.only, verbose=a.v, nproc=a.p)
sys.stdout.flush()
os._exit(code)
