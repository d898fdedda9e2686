"""Runs real fits in its own process: argv = pickle with problems, output pickle."""
import os, pickle, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vf
vf.setup_repo()
import numpy as np
import fitlib


def main(inp, outp):
    from types import SimpleNamespace
    from diffmah import mah_singlehalo
    from diffmah.fitting_helpers import diffmah_fitter_helpers as fh, bfgs_wrapper
    import scipy.optimize
    real = scipy.optimize.minimize
    fail = lambda f, x, *a, **k: SimpleNamespace(x=np.asarray(x, float), fun=float("nan"), success=False)
    out = []
    for p in pickle.load(open(inp, "rb")):
        try:
            if p.get("adam"):
                fitlib.swap(real, fail)
            else:
                fitlib.swap(fail, real)
            r = fitlib.quiet(fh.diffmah_fitter, p["t"], p["mah"], **p["kw"])
            kw = {k: v for k, v in p["kw"].items() if k in ("lgm_min", "dlogm_cut", "t_fit_min", "tpeak_fixed")}
            u0, ld0, skip0 = fitlib.quiet(fh.get_loss_data, p["t"], p["mah"], **kw)
            d = dict(skip=bool(r.skip_fit), par=[float(x) for x in r.p_best], loss=float(r.loss_best), code=int(r.code_used), term=bool(r.fit_terminates))
            if not r.skip_fit:
                tt, y = np.asarray(r.loss_data.t_target), np.asarray(r.loss_data.log_mah_target, float)
                z = np.asarray(mah_singlehalo(r.p_best, tt.astype("f4"), np.float32(np.log10(p["t"][-1])))[1], float)
                d.update(dev=z - y, start=float(fh.log_mah_loss_uparams(u0, ld0)))
            out.append(d)
        except Exception as e:
            out.append(dict(error=f"{type(e).__name__}: {e}"[:300]))
    pickle.dump(out, open(outp, "wb"))


main(sys.argv[1], sys.argv[2])
