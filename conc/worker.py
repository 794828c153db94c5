"""usage: worker.py PROP --budget S --seed N --worker I --workers W [--replay FAMILY SEED]   (run with /opt/venv python)"""
import argparse
import importlib
import json
import os
import sys
import traceback

ap = argparse.ArgumentParser()
ap.add_argument('prop')
ap.add_argument('--repo', default='/repo')
ap.add_argument('--budget', type=float, default=20)
ap.add_argument('--min-cases', type=int, default=5)
ap.add_argument('--max-cases', type=int, default=10 ** 9)
ap.add_argument('--seed', type=int, default=1)
ap.add_argument('--worker', type=int, default=0)
ap.add_argument('--workers', type=int, default=1)
ap.add_argument('--replay', nargs=2)
a = ap.parse_args()
here = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
sys.path[:0] = [here, a.repo]
os.environ['CONC_REPO'] = os.path.realpath(a.repo)
import harness  # noqa
try:
    mod = importlib.import_module('p_' + a.prop)
    if a.replay:
        fam, seed = a.replay
        fn = {n: f for n, f, _ in mod.FAMILIES}[fam]
        try:
            out = fn(harness.rng_for(fam, int(seed)), harness.Rec())
            print('REPLAY: contract held; case', repr(out)[:2000])
            sys.exit(0)
        except harness.Violation as v:
            print('REPLAY: VIOLATED {}\n{}'.format(v.contract, v.msg))
            if v.data is not None:
                print('input:', repr(v.data)[:4000])
            sys.exit(1)
        except harness.Skip:
            print('REPLAY: outside the precondition')
            sys.exit(0)
        except Exception as e:
            print('REPLAY: ' + ('VIOLATED no_unexpected_exception' if harness.in_repo(e.__traceback__) else 'ERROR of the harness'))
            traceback.print_exc()
            sys.exit(1 if harness.in_repo(e.__traceback__) else 2)
    real_stdout = sys.stdout
    sys.stdout = open(os.devnull, 'w')
    res = harness.run_cases(mod.FAMILIES, a.seed, a.budget, a.min_cases, a.max_cases, a.worker, a.workers)
    sys.stdout = real_stdout
except SystemExit:
    raise
except Exception as e:
    res = {'fatal': repr(e), 'tb': traceback.format_exc(limit=-6)}
    sys.stdout = sys.__stdout__
print('RESULT ' + json.dumps(res))
