"""Entry point: run.py <property id>.  Exit 0 held, 1 violated, 2 machinery error."""
import importlib
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import common  # noqa: E402


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    ctx = common.Ctx(pid, tier, seed)
    mod = importlib.import_module("checks." + pid.lower())
    try:
        mod.run(ctx)
    except common.MachineryError as e:
        print(str(e))
        return 2
    except Exception as e:
        traceback.print_exc()
        frames = traceback.extract_tb(e.__traceback__)
        lib = os.path.realpath(common.REPO) + os.sep
        if isinstance(e, common.LibraryError):
            pass
        elif not any(os.path.realpath(f.filename).startswith(lib) for f in frames) or "imeout" in type(e).__name__:
            return 2
        # the harness only issues requests the properties promise to answer: an exception out of the library breaks the promise
        ctx.violation(f"unexpected {type(e).__name__} from the library: {str(e)[:200]}", {"traceback": traceback.format_exc()})
    return common.finish(ctx, getattr(mod, "LEVEL", "model_checking"))


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    sys.exit(rc)
