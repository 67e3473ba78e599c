"""python -m mc.run C01 [quick|thorough]"""
import importlib, os, sys, traceback


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    from mc.core import Ctx, from_repo
    mod = importlib.import_module("checks." + pid.lower())
    ctx = Ctx(pid, tier, seed)
    try:
        mod.run(ctx)
    except Exception as e:
        tb = traceback.format_exc()
        print(tb, flush=True)
        # An exception raised by the code under test, where it has to return a value, is a violation.
        if from_repo(e) or "/src/ripplegw/" in tb:
            ctx.fail("exception:" + type(e).__name__, "the code under test raised, or returned what cannot be used: " + repr(e)[:300], traceback=tb[-3000:])
        elif not ctx.nfail:
            sys.exit(2)
    sys.exit(ctx.finish(getattr(mod, "LEVEL", "model_checking")))


if __name__ == "__main__":
    main()
