#!/opt/venv/bin/python
"""Entry point.

check.py C01                run the check of a property (VERIF_SEED, VERIF_TIER from the environment)
check.py replay FILE        replay a recorded violation
check.py digests C01 N      one digest per run (determinism self-test)
"""

import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from sim import boot

boot.reexec()
boot.boot()

from sim import runner  # noqa: E402


def main(argv: list[str]) -> int:
    import argparse

    ap = argparse.ArgumentParser()
    ap.add_argument("what")
    ap.add_argument("rest", nargs="*")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--runs", type=int, default=None)
    ap.add_argument("--wall", type=float, default=None)
    a = ap.parse_args(argv)
    if a.what == "replay":
        return runner.replay(a.rest[0])
    if a.what == "digests":
        return runner.digests(a.rest[0], a.tier, a.seed, int(a.rest[1]))
    return runner.check(a.what.upper(), a.tier, a.seed, a.runs, a.wall)


if __name__ == "__main__":
    try:
        rc = main(sys.argv[1:])
    except Exception:
        import traceback

        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    os._exit(rc)
