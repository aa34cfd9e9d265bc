#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] -- decide one property."""
import importlib
import json
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(12000)
sys.dont_write_bytecode = True

from sa import interp  # noqa: E402
from sa.project import AnalysisBroken, Project, Undecided  # noqa: E402
from sa.report import Ctx, finish  # noqa: E402
from sa import registry  # noqa: E402


def main(argv):
    t0 = time.time()
    prop = argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in argv:
        tier = argv[argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    title, mods = registry.PROPERTIES[prop]
    try:
        ctx = Ctx(Project(), tier)
        interp.DEADLINE[0] = time.monotonic() + 780
        for m in mods:
            mod, _, fn = m.rpartition(".")
            try:
                getattr(importlib.import_module("sa.rules." + mod), fn)(ctx)
            except Undecided as e:
                print("UNDECIDED property=%s rule=%s %s" % (prop, m, e))
                ctx.note("rule %s is not decided: %s" % (m, e))
    except AnalysisBroken as e:
        print("ANALYSIS-BROKEN property=%s %s" % (prop, e))
        return 2
    except Exception:
        traceback.print_exc()
        print("ANALYSIS-BROKEN property=%s internal error" % prop)
        return 2
    return finish(prop, title, ctx, tier, seed, t0)


if __name__ == "__main__":
    sys.exit(main(sys.argv))
