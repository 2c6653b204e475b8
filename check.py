#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] -- decide one property from the source of /repo."""
import importlib
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
sys.dont_write_bytecode = True


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    from mstat.program import Program, AnalysisError
    from mstat.report import Ctx, finish
    try:
        ctx = Ctx(prop, tier, seed, Program())
        importlib.import_module(f"mstat.checks.{prop.lower()}").run(ctx)
        return finish(ctx)
    except AnalysisError as e:
        print(f"ANALYSIS-BROKEN property={prop}: {e}")
        return 2
    except Exception:
        traceback.print_exc()
        return 3


if __name__ == "__main__":
    sys.exit(main())
