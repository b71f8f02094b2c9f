#!/usr/bin/env python3
"""check.py <property> [quick|thorough]: decide one property on /repo's working tree."""
import os
import sys
import time

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "driver"))
sys.dont_write_bytecode = True
from common import Inconclusive, Result, finish, log  # noqa: E402
import plans  # noqa: E402


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    plan = plans.PLANS[prop]
    start = time.time()
    result = Result()
    try:
        for job in plan["jobs"]:
            job(result, prop, seed, tier == "thorough")
    except Inconclusive as e:
        result.errors.append(str(e))
    sys.exit(finish(prop, tier, seed, "exploration", plan["rule"], plan["assumptions"], result, plan["needed"], start))


if __name__ == "__main__":
    try:
        main()
    except SystemExit:
        raise
    except BaseException as e:  # no verdict
        import traceback
        traceback.print_exc()
        log(f"harness error: {e}")
        sys.exit(2)
