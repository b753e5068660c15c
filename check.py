#!/opt/veriftools/pyvenv/bin/python3
"""check.py <property> [--tier quick|thorough]: decides one property on /repo's current working tree."""
import argparse, os, sys
if os.environ.get('PYTHONHASHSEED') != '0':
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(200000)
os.environ.setdefault('OPENBLAS_NUM_THREADS', '1')
os.environ.setdefault('OMP_NUM_THREADS', '1')


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    a = ap.parse_args()
    from vk import props, report, build, par
    chk = report.Check(a.property, 'thorough' if a.tier == 'thorough' else 'quick', a.seed)
    if chk.tier == 'quick':
        par.budget(450, 780)
    try:
        vac = props.PROPS[a.property](chk)
    except build.BuildError as e:
        print('the code does not build: %s' % e)
        return 2
    return chk.finish(vacuity=vac or 1)


if __name__ == '__main__':
    sys.exit(main())
