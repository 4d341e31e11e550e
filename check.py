#!/opt/venv/bin/python
"""check.py PROPERTY [--tier quick|thorough]   decide one property.
   check.py --replay FILE                      re-run a recorded violation.
Runs the real code of /repo's working tree (see symex/)."""
import argparse
import importlib
import json
import os
import sys

sys.dont_write_bytecode = True
VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
os.environ['VERIF_REPO'] = REPO
os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
os.environ['PATH_TO_POSYDON'] = REPO + '/'
os.environ['PATH_TO_POSYDON_DATA'] = REPO + '/posydon/unit_tests/_data/'
os.environ['MESA_DIR'] = REPO + '/'
for k in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS', 'MKL_NUM_THREADS'):
    os.environ[k] = '1'
sys.path[:] = [VERIF, REPO] + [p for p in sys.path if p not in (VERIF, REPO)]
sys.setrecursionlimit(5000)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'),
                    choices=['quick', 'thorough'])
    ap.add_argument('--replay')
    a = ap.parse_args()
    from symex import run
    import posydon
    if not os.path.realpath(posydon.__file__).startswith(
            os.path.realpath(REPO)):
        print("posydon not imported from", REPO)
        return 3
    index = json.load(open(os.path.join(VERIF, 'checks', 'index.json')))
    if a.replay:
        rec = json.load(open(a.replay))
        mod = importlib.import_module('checks.' + index[rec['property']])
        h = [h for h in mod.REG if h.name == rec['harness']][0]
        vals = {k: (float('nan') if v in ('nan', 'NaN') else v)
                for k, v in rec['values'].items()}
        st, failed, exc, checked, notes = run.concrete_run(h, vals)
        print("status:", st, "failed:", failed, "exception:", exc)
        for k, v in notes.items():
            print("  ", k, "=", v)
        return 1 if failed else 0
    mod = importlib.import_module('checks.' + index[a.prop])
    return run.run_property(a.prop, mod.REG, a.tier, mod.META.get(a.prop, {}))


if __name__ == '__main__':
    sys.exit(main())
