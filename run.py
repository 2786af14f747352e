#!/opt/venv/bin/python
"""run.py PROPERTY [--tier quick|thorough] | --replay FILE  (internal: --worker, --minimise)"""
import os
import sys
sys.dont_write_bytecode = True
os.environ.setdefault('OMP_NUM_THREADS', '1')
os.environ.setdefault('OPENBLAS_NUM_THREADS', '1')
os.environ['TZ'] = 'UTC'
os.environ['LANG'] = os.environ['LC_ALL'] = 'C.UTF-8'
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from sim import harness


def main(a):
    if a[0] == '--worker':
        pid, base, tier, lo, hi, stride, of, dl = a[1:9]
        harness.worker_main(pid, int(base), tier, int(lo), int(hi), int(stride), of, float(dl))
        return 0
    if a[0] == '--minimise':
        harness.minimise_main(a[1], a[2], a[3])
        return 0
    if a[0] == '--replay':
        return harness.replay_main(a[1])
    tier = 'quick'
    if '--tier' in a:
        tier = a[a.index('--tier') + 1]
    return harness.check_main(a[0], tier)


if __name__ == '__main__':
    if os.environ.get('PYTHONHASHSEED') is None:
        os.environ['PYTHONHASHSEED'] = '0'
        os.execv(sys.executable, [sys.executable, '-W', 'ignore'] + sys.argv)
    rc = main(sys.argv[1:])
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)
