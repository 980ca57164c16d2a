"""Entry point of all checks.

  check.py C02                 run the check of property C02 (VERIF_SEED, VERIF_TIER)
  check.py --replay FILE       re-execute a recorded violation
  check.py --case C02 SEED IDX run one case verbosely
"""
import json
import os
import sys

ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VT_REPO', '/repo')
os.environ.setdefault('CUDA_VISIBLE_DEVICES', '-1')
os.environ.setdefault('TF_CPP_MIN_LOG_LEVEL', '3')
sys.dont_write_bytecode = True
sys.path.insert(0, ROOT)
sys.path.insert(0, REPO)

from vt import runner  # noqa: E402


def main(argv):
    if argv[0] == '--worker':
        runner.worker(argv[1], int(argv[2]), argv[3], int(argv[4]), int(argv[5]), argv[6])
        return 0
    if argv[0] == '--replay':
        return runner.replay(argv[1])
    if argv[0] == '--strata':
        runner.setup_tf()
        print(json.dumps(sorted(set(runner.strata(runner.load(argv[1]))))))
        return 0
    if argv[0] == '--case':
        runner.setup_tf()
        ctx = runner.Ctx('quick')
        mod = runner.load(argv[1])
        v, msg, key, st = runner.run_one(mod, argv[1], int(argv[2]), 'quick', int(argv[3]), ctx)
        print(st, v, msg, '\n'.join(ctx.notes), dict(ctx.evals))
        return 0
    seed = int(os.environ.get('VERIF_SEED', '0') or 0)
    tier = os.environ.get('VERIF_TIER', 'quick') or 'quick'
    return runner.main(argv[0], seed, tier)


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
