#!/usr/bin/env python3-vt
"""check.py ID          run the check of property ID (VERIF_SEED, VERIF_TIER)
check.py --replay FILE  re-run a saved counterexample
check.py --list         list the properties"""
import os
import sys

sys.dont_write_bytecode = True
if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable] + sys.argv)
os.environ.setdefault("HYPOTHESIS_STORAGE_DIRECTORY", "/nonexistent")
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

from pbt import core                    # noqa: E402
from pbt.registry import find, all_ids  # noqa: E402


def main(argv):
    if len(argv) == 2 and argv[0] == "--replay":
        return core.replay(os.path.abspath(argv[1]), find)
    if argv == ["--list"]:
        print("\n".join(all_ids()))
        return 0
    if len(argv) != 1:
        print(__doc__)
        return 2
    seed = int(os.environ.get("VERIF_SEED") or "1")
    tier = os.environ.get("VERIF_TIER") or "quick"
    if tier not in ("quick", "thorough"):
        tier = "quick"
    return core.run_check(find[argv[0]], tier, seed)


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
