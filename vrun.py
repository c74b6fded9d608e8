#!/usr/bin/env python3
"""vrun.py <PROPERTY> [--replay FILE]   (VERIF_SEED, VERIF_TIER)"""
import importlib, json, os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib
import suites


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    ctx = vlib.Ctx(prop, tier, seed)
    try:
        ctx.lvh, bt = vlib.build()
        ctx.notes.append(f"harness build {bt:.1f} s")
        if len(sys.argv) > 3 and sys.argv[2] == "--replay":
            v = json.load(open(sys.argv[3]))
            for ln in ctx.judge(v["judge"], v["suite"], [v["scenario"]], "replay", env=v.get("env")):
                print(ln.rstrip()[:3000])
        else:
            suites.PROPS[prop](ctx)
        return ctx.finish()
    except vlib.ToolError as e:
        print(f"TOOL ERROR: {e}")
        return 2
    except Exception:
        traceback.print_exc()
        return 2


sys.exit(main())
