#!/usr/bin/env python3
"""check.py <property id> [--thorough]: decide one property statically."""
import gc
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(20000)
gc.set_threshold(300000, 20, 50)

from pyrstat.front import AnalysisBroken  # noqa: E402
from pyrstat import registry  # noqa: E402


def main():
    args = [a for a in sys.argv[1:] if not a.startswith("-")]
    tier = "thorough" if "--thorough" in sys.argv or \
        os.environ.get("VERIF_TIER") == "thorough" else "quick"
    rc = 0
    for prop in args:
        try:
            rc = max(rc, registry.run(prop, tier))
        except AnalysisBroken as ex:
            print("ANALYSIS BROKEN: %s" % ex)
            rc = 2
        except Exception:
            traceback.print_exc()
            rc = 2
    return rc


if __name__ == "__main__":
    sys.exit(main())
