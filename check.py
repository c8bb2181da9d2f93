#!/usr/bin/env python3
"""check.py <property-id> [--tier quick|thorough] [--repo PATH] : run one static check.

Exit 0: the property's rule held at every obligation (known findings are printed).
Exit 1: a violation, with a 'VIOLATION property=<id> replay=<path>' line.
Exit 2: the analysis is broken (an anchor is gone, a self test failed): no verdict.
"""
import argparse
import importlib
import os
import sys
import time
import traceback

sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

from sa.index import AnalysisBroken, Program  # noqa: E402
from sa.report import finish  # noqa: E402


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--repo", default=os.environ.get("VERIF_REPO", "/repo"))
    a = ap.parse_args()
    tier = "thorough" if a.tier == "thorough" else "quick"
    t0 = time.time()
    try:
        mod = importlib.import_module(f"sa.rules.{a.prop.lower()}")
        prog = Program(a.repo)
        if hasattr(mod, "self_test"):
            mod.self_test()
        res = mod.run(prog, tier)
        code = finish(a.prop, tier, res, t0)
    except AnalysisBroken as err:
        print(f"ANALYSIS-BROKEN property={a.prop}: {err}", file=sys.stderr)
        code = 2
    except Exception:
        traceback.print_exc()
        print(f"ANALYSIS-BROKEN property={a.prop}: internal error", file=sys.stderr)
        code = 2
    sys.exit(code)


if __name__ == "__main__":
    main()
