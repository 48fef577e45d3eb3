"""check.py P07 [--replay FILE] [--tier quick|thorough]   exit 0: held;  exit 1: VIOLATION line printed"""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from pyvc import driver  # noqa: E402
from pyvc.registry import PROPERTIES  # noqa: E402


def main():
    pid = sys.argv[1]
    if "--replay" in sys.argv:
        sys.exit(driver.replay(sys.argv[sys.argv.index("--replay") + 1]))
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    mods, meta = PROPERTIES[pid]
    sys.exit(driver.check(pid, mods, tier, seed, frames_only=meta.get("frames_only", False), meta=meta))


if __name__ == "__main__":
    main()
