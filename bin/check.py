#!/usr/bin/env python3
"""check.py <property> : decides one property on /repo's working tree."""
import importlib, os, sys, traceback
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "lib"))
sys.path.insert(0, VERIF)
sys.dont_write_bytecode = True
import vf


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    mod = importlib.import_module("checks." + pid.lower())
    ctx = vf.Ctx(pid, tier, seed)
    try:
        mod.run(ctx)
        ctx.evidence(mod.LEVEL, 0)
        for k in ctx.findings:
            print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
        ctx.log("held: %d traces, %d events, %d states" % (ctx.traces, ctx.events, ctx.states))
        return 0
    except vf.Violation as v:
        ctx.evidence(mod.LEVEL, 1)
        print(str(v)[:3000])
        print("VIOLATION property=%s replay=%s" % (pid, v.replay))
        return 1
    except vf.CheckError as e:
        print("CHECK-ERROR:", e)
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    finally:
        if not os.environ.get("VERIF_KEEP"):
            ctx.cleanup()
        else:
            print("kept", ctx.dir)


sys.exit(main())
