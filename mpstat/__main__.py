"""python3-vt -m mpstat ID [--tier quick|thorough] [--only KEY] [-v]"""
import argparse
import importlib
import os
import sys
import warnings

warnings.simplefilter("ignore")


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int,
                    default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--only")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    from . import harness
    from .registry import REGISTRY
    mod, fn, opts = REGISTRY[a.property]
    c = harness.Check(a.property, a.tier, a.seed, only=a.only)
    c.verbose = a.v
    getattr(importlib.import_module("mpstat.checks." + mod), fn)(c)
    opts = dict(opts)
    if a.only:
        opts["minimum"] = 0
    return c.finish(**opts)


if __name__ == "__main__":
    if os.environ.get("PYTHONHASHSEED") != "0":
        os.environ["PYTHONHASHSEED"] = "0"
        os.execv(sys.executable, [sys.executable, "-m", "mpstat"]
                 + sys.argv[1:])
    try:
        code = main()
    except SystemExit:
        raise
    except BaseException:
        import traceback
        traceback.print_exc()
        print("ANALYSIS-BROKEN internal error")
        code = 2
    sys.exit(code)
