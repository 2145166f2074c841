#!/usr/bin/env python3
"""check.py <property id> [--tier quick|thorough]   (or: check.py setup)"""
import importlib, os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import *

def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    ctx = None
    def judged():  # what was found before the run broke off stands
        return ctx.finish(getattr(mod, "LEVEL", "model_checking"), getattr(mod, "ASSUMPTIONS", ())) if ctx and ctx.violations else 2
    try:
        if pid == "setup":
            build_java()
            build_harness([])
            return 0
        mod = importlib.import_module(f"checks.{pid.lower()}")
        ctx = Ctx(pid, tier, seed)
        build_java()
        build_harness(mod.BINS)
        ctx.detail["build_s"] = round(time.time() - ctx.t0, 1)
        mod.run(ctx)
        return ctx.finish(getattr(mod, "LEVEL", "model_checking"), getattr(mod, "ASSUMPTIONS", ()))
    except Crashed:
        return judged()
    except ToolError as e:
        print(f"TOOL-ERROR {pid}: {e}")
        return judged()
    except Exception:
        traceback.print_exc()
        return judged()

sys.exit(main())
