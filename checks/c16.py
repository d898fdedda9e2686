"""C16 selection of the fitted points (spec/FitTargets*)."""
import numpy as np
import fitlib
from vf import fx


def run(ctx):
    from diffmah.fitting_helpers import diffmah_fitter_helpers as fh
    rng = ctx.rng
    lat = fitlib.lattice(ctx)
    probs = [lat[i] for i in rng.permutation(len(lat))[: 6000 if ctx.quick else 60000]]
    probs += [fitlib.random_problem(rng, dtype=[None, None, "f4"][i % 3]) for i in range(1500 if ctx.quick else 12000)]
    evs, meta = [], []
    for i, p in enumerate(probs):
        if not (p["h"][-1] != fitlib.NINF or p["c"]["min"] != fitlib.NINF):
            continue
        inp = dict(t=p["t"], mah=p["mah"], **p["kw"])
        t, m = p["t"].copy(), p["mah"].copy()
        r = ctx.must("get_loss_data", fitlib.quiet, fh.get_loss_data, t, m, **p["kw"])
        if r is None:
            return
        u, d, skip = r
        evs.append(dict(ev="targets", h=p["h"], t=p["tf"], c=p["c"], lg=fx(np.asarray(d.log_mah_target, float)), tt=fx(np.asarray(d.t_target, float)),
                        tol=3, start=bool(np.all(np.isfinite(np.asarray(u, float))))))
        meta.append(inp)
        ctx.count(1, (len(d.t_target), int(p["c"]["min"] // 10**6), int(p["c"]["cut"] // 10**6), bool(skip)))
    # ---- what the fitter itself reports to have fitted (through full fits, and forced skips)
    k = 0
    for i in rng.permutation(len(probs))[: 500 if ctx.quick else 4000]:
        p = probs[i]
        if len(p["mah"]) > 12 and k > (20 if ctx.quick else 200):
            continue
        k += len(p["mah"]) > 12
        r = ctx.must("diffmah_fitter", fitlib.quiet, fh.diffmah_fitter, p["t"].copy(), p["mah"].copy(), nstep=2, **p["kw"],
                     force_skip_fit=bool(i % 4))
        if r is None:
            return
        d = r.loss_data
        evs.append(dict(ev="targets", h=p["h"], t=p["tf"], c=p["c"], lg=fx(np.asarray(d.log_mah_target, float)), tt=fx(np.asarray(d.t_target, float)),
                        tol=3, start=True))
        meta.append(dict(t=p["t"], mah=p["mah"], **p["kw"]))
        ctx.count(1)
    ctx.trace("FitTargetsTrace", evs, meta, shards=6)
    ctx.notes["rule"] = "one history and setting; distinct = (targets, minimum, cut, skipped)"
    ctx.assumptions += ["histories end with a positive mass or a least fitting mass is given; cuts up to 10 dex",
                        "random histories keep 3e-5 dex away from the cuts; cuts that meet exactly are covered by the lattice of exact powers of ten"]
