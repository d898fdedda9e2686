"""C18 peak time of a fit (spec/FitTargets*)."""
import numpy as np
import fitlib
from vf import fx


def run(ctx):
    from diffmah import diffmah_kernels as dk
    from diffmah.fitting_helpers import diffmah_fitter_helpers as fh
    rng = ctx.rng
    lat = [p for p in fitlib.lattice(ctx) if p["h"][-1] != fitlib.NINF and p["h"][-1] > p["c"]["min"]]
    order = rng.permutation(len(lat))
    probs = [lat[i] for i in order[: 4000 if ctx.quick else 40000]]
    evs, meta = [], []
    for i in range(1500 if ctx.quick else 10000):
        p = fitlib.random_problem(rng, dtype=[None, None, "f4"][i % 3])
        if p["h"][-1] > p["c"]["min"]:
            probs.append(p)
            continue
        # the final point itself is below the least fitting mass: the age is still the last time
        r = ctx.must("get_loss_data", fitlib.quiet, fh.get_loss_data, p["t"], p["mah"], **p["kw"])
        if r is None:
            return
        if not r[2]:
            evs.append(dict(ev="age", t=p["tf"], age=fx(10 ** float(r[1].logt0)), tol=150))
            meta.append(dict(t=p["t"], mah=p["mah"], **p["kw"]))
            ctx.count(1, "age")
    fits = {8: 0, 0: 0}
    lim = (150, 10) if ctx.quick else (2000, 400)

    def bounded(u):
        return float(dk._get_bounded_diffmah_param(np.float32(u), dk.MAH_PBOUNDS.t_peak)) if hasattr(dk, "_get_bounded_diffmah_param") else \
            float(dk.get_bounded_mah_params(dk.DEFAULT_MAH_U_PARAMS._replace(u_t_peak=np.float32(u))).t_peak)
    for i, p in enumerate(probs):
        kw = dict(p["kw"])
        c = dict(p["c"])
        if rng.uniform() < 0.2 and not c["fixed"]:
            fix = float(np.round(rng.uniform(0.3, 15.0), 3))
            kw["tpeak_fixed"] = fix
            c["fixed"] = fx(fix)
        r = ctx.must("get_loss_data", fitlib.quiet, fh.get_loss_data, p["t"], p["mah"], **kw)
        if r is None:
            return
        u, d, skip = r
        if skip:
            continue
        tpfit = -1
        small = len(p["mah"]) <= 8
        k = 8 if small else 0
        if fits[k] < lim[0 if small else 1]:
            fits[k] += 1
            f = ctx.must("diffmah_fitter", fitlib.quiet, fh.diffmah_fitter, p["t"], p["mah"], nstep=int(rng.integers(2, 20)), **kw)
            if f is None:
                return
            tpfit = fx(float(f.p_best.t_peak))
        evs.append(dict(ev="peak", h=p["h"], t=p["tf"], c=c, tp=fx(bounded(d.u_t_peak)), tpfit=tpfit, age=fx(10 ** float(d.logt0)), tol=150))
        meta.append(dict(t=p["t"], mah=p["mah"], **kw))
        ctx.count(1, (len(p["mah"]), bool(c["fixed"]), evs[-1]["tp"] // 10**6))
    # fits that end in the gradient-descent fallback: a flat direction is not needed, a failing first stage is
    if True:
        from types import SimpleNamespace
        import scipy.optimize
        old = scipy.optimize.minimize
        new = lambda f, x, *a, **k: SimpleNamespace(x=np.asarray(x, float), fun=float("nan"), success=False)
        fitlib.swap(old, new)
        try:
            n = 0
            for p in probs:
                r = fitlib.quiet(fh.get_loss_data, p["t"], p["mah"], **p["kw"])
                if r[2]:
                    continue
                f = ctx.must("diffmah_fitter (fallback)", fitlib.quiet, fh.diffmah_fitter, p["t"], p["mah"], nstep=3, **p["kw"])
                if f is None:
                    return
                evs.append(dict(ev="peak", h=p["h"], t=p["tf"], c=p["c"], tp=fx(bounded(f.loss_data.u_t_peak)), tpfit=fx(float(f.p_best.t_peak)),
                                age=fx(10 ** float(f.loss_data.logt0)), tol=150))
                meta.append(dict(t=p["t"], mah=p["mah"], fallback=True, **p["kw"]))
                n += 1
                if n >= (8 if ctx.quick else 200):
                    break
        finally:
            fitlib.swap(new, old)
    # ---- index search: one halo and a population
    byn = {}
    for p in probs:
        byn.setdefault(len(p["mah"]), []).append(p)
    for n, ps in sorted(byn.items(), key=lambda kv: -len(kv[1]))[: 8 if ctx.quick else 40]:
        ps = ps[:400]
        H = np.array([[-7e6 if x == fitlib.NINF else x for x in p["h"]] for p in ps]) / 1e6
        many = ctx.must("compute_indx_t_peak_halopop", fh.compute_indx_t_peak_halopop, H)
        one = [ctx.must("compute_indx_t_peak_singlehalo", fh.compute_indx_t_peak_singlehalo, h) for h in H]
        if many is None or any(o is None for o in one):
            return
        evs.append(dict(ev="index", h=[p["h"] for p in ps], one=[int(o) for o in one], many=[int(o) for o in many]))
        meta.append(dict(log_mah=H))
        ctx.count(len(ps))
    ctx.trace("FitTargetsTrace", evs, meta, shards=6)
    ctx.notes["fits"] = sum(fits.values())
    ctx.notes["rule"] = "one fitting problem; distinct = (points, prescribed, peak time to 1 Gyr)"
    ctx.assumptions += ["final mass above the least fitting mass", "plateaus are exact or steps are above 2e-5 dex (the search compares in single precision)"]
