import importlib, os, sys, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(os.path.dirname(HERE), "checks"))
import vf
from levels import LEVEL


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    ctx = vf.Ctx(prop, tier, seed, LEVEL[prop])
    rc = 2
    try:
        mod = importlib.import_module("c" + prop[1:])
        if not getattr(mod, "NO_REPO", False):
            vf.setup_repo()
        mod.run(ctx)
        rc = ctx.finish()
    except vf.MachineryError as e:
        print("MACHINERY ERROR:", e, file=sys.stderr)
    except Exception:
        traceback.print_exc()
    finally:
        ctx.close()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)


main()
