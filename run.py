#!/usr/bin/env python3
"""run.py CHECK [--tier quick|thorough]  |  run.py --replay FILE"""
import os
import sys

os.environ.setdefault('PYTHONDONTWRITEBYTECODE', '1')
for v in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS', 'MKL_NUM_THREADS', 'GDAL_NUM_THREADS'):
    os.environ.setdefault(v, '1')
os.environ.setdefault('MPLBACKEND', 'Agg')
HERE = os.path.dirname(os.path.abspath(__file__))
PY = '/opt/venv/bin/python'
if os.environ.get('PYTHONHASHSEED') != '0' or (os.path.exists(PY) and os.path.realpath(sys.prefix) != os.path.realpath('/opt/venv')):
    os.environ['PYTHONHASHSEED'] = '0'
    if not os.environ.get('VERIF_REEXEC'):
        os.environ['VERIF_REEXEC'] = '1'
        os.execv(PY if os.path.exists(PY) else sys.executable, [PY, os.path.abspath(__file__)] + sys.argv[1:])
sys.dont_write_bytecode = True
sys.path.insert(0, HERE)
from vlib import harness  # noqa: E402


def selftest():
    """the oracle reproduces the published point-to-point example; evidence folder exists"""
    from vlib import ref, tables
    from checks.c29 import PROFILE
    os.makedirs(harness.EVID, exist_ok=True)
    tables.deviate = lambda pct: round(ref.qi_hastings(pct / 100), 4)
    rows = tables.p2p_table(tables.p2p_case({'fmhz': 41.5, 'd': 77.8, 'hg': [143.9, 8.5], 'ipol': 0}, PROFILE))[0]
    pub = {1: (128.6, 137.6, 119.6), 10: (132.2, 140.8, 123.5), 50: (135.8, 144.3, 127.2), 90: (138.0, 146.5, 129.4), 99: (139.7, 148.4, 131.0)}
    bad = [(r, c, v) for r, c, v in rows if abs(v - pub[r][(50, 90, 10).index(c)]) > 0.06]
    for b in bad:
        print('oracle disagrees with the published example:', b)
    print('selftest', 'failed' if bad else 'ok')
    return 1 if bad else 0


def main(argv):
    if argv and argv[0] == '--replay':
        return harness.replay(argv[1])
    if argv and argv[0] == '--selftest':
        return selftest()
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in argv:
        i = argv.index('--tier')
        tier = argv[i + 1]
        del argv[i:i + 2]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    return harness.run_check(argv[0], tier, seed)


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
