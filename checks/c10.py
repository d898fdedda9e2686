"""C10 peak times (spec/HaloPop, HaloPopTrace)."""
import numpy as np
import c09, popgen
from vf import fx
bits = popgen.bits


def run(ctx):
    import jax
    from jax import random as jran
    from diffmah.diffmahpop_kernels.t_peak_kernels import tp_pdf_cens_flex as tc, tp_pdf_sats as ts
    from diffmah.diffmahpop_kernels import bimod_censat_params as bcp
    ctx.model("HaloPopModel", c09.CFG % 2, workers=1)
    rng = ctx.rng
    evs, meta = [], []

    def params(i):
        """defaults, random, and corners of the declared limits"""
        if i == 0:
            return popgen.plain(bcp.DEFAULT_DIFFMAHPOP_PARAMS)
        if i % 2:
            return popgen.pop_params(rng, 15)
        B = popgen.bounds()
        return popgen.plain(bcp.DEFAULT_DIFFMAHPOP_PARAMS._replace(
            **{k: (lambda lo, hi: lo + (hi - lo) * float(rng.choice([0.001, 0.5, 0.999])))(*getattr(B, k))
               for k in bcp.DEFAULT_DIFFMAHPOP_PARAMS._fields if k.startswith(("cen_tp", "utp_"))}))
    n = 300
    for rep in range(6 if ctx.quick else 40):
        for kind, mod, popf, mcf, _ in popgen.kinds():
            P = params(rep)
            lgm, tob, tpk, lgt0 = popgen.inputs(rng, n, tlo=2.0)
            if rep % 3 == 2:
                lgm[:20], tob[:20] = rng.choice([10.0, 16.0], 20), rng.choice([2.0, 13.79], 20)
            t0 = 10**lgt0
            key = jran.PRNGKey(int(rng.integers(1 << 30)))
            g = ctx.must(kind, popf, P, lgm, tob, key, lgt0)
            if g is None:
                return
            e, l, s = [np.asarray(p.t_peak) for p in (g.mah_params_early, g.mah_params_late, g.mah_params)]
            for i in range(n):
                ref = t0 if kind == "cen" else tob[i]
                evs.append(dict(ev="tp", kind=kind, tp=fx(s[i]), tpe=bits([e[i]])[0], tpl=bits([l[i]])[0], tpsel=bits([s[i]])[0],
                                ref=fx(ref), tol=60))
                meta.append(dict(kind=kind, early=e[i], late=l[i], got=s[i], t_obs=tob[i], t0=t0, lgm=lgm[i], popparams=P if i == 0 else None))
            ctx.count(n, *[(kind, int(10 * x / t0)) for x in s])
            # supplied
            sup = np.where(rng.uniform(size=n) < 0.3, rng.uniform(0.3, t0, n), tpk).astype("f4")
            g = ctx.must(kind + " supplied t_peak", popf, P, lgm, tob, key, lgt0, sup)
            if g is None:
                return
            e, l, s = [np.asarray(p.t_peak) for p in (g.mah_params_early, g.mah_params_late, g.mah_params)]
            for i in range(n):
                evs.append(dict(ev="given", want=fx(sup[i]), got=fx([e[i], l[i], s[i]]), tol=60))
                meta.append(dict(kind=kind, supplied=sup[i], early=e[i], late=l[i], selected=s[i]))
            ctx.count(n)
            # populations with histories
            tarr = np.linspace(1, t0, 3).astype("f4")
            g = ctx.must(kind, mcf, P, tarr, lgm, tob, key, lgt0)
            if g is None:
                return
            s = np.asarray(g.mah_params.t_peak)
            for i in range(0, n, 3):
                ref = t0 if kind == "cen" else tob[i]
                evs.append(dict(ev="tp", kind=kind, tp=fx(s[i]), tpe=0, tpl=0, tpsel=0, ref=fx(ref), tol=60))
                meta.append(dict(kind=kind, got=s[i], t_obs=tob[i], t0=t0, lgm=lgm[i]))
            ctx.count(n // 3)
    # ---- the peak-time draws themselves, including the ends of the uniform variate
    real = jran.uniform
    for force in (None, 0.0, 1e-30, 1e-7, 1 - 2.0**-24, 1 - 2.0**-23, 0.5):
        if force is not None:
            def fake(key, shape=(), dtype=float, minval=0.0, maxval=1.0, **k):
                return real(key, shape, minval=minval, maxval=maxval) * 0 + minval + np.float32(force) * (maxval - minval)
            jax.clear_caches()
            jran.uniform = fake
        try:
            for rep in range(4 if force is None else 2):
                P = params(rep + 1)
                comp = bcp.get_component_model_params(P)
                lgm, tob, _, lgt0 = popgen.inputs(rng, 60, tlo=2.0)
                keys = jran.split(jran.PRNGKey(int(rng.integers(1 << 30))), 60)
                t0 = np.float32(10**lgt0)
                if hasattr(tc, "mc_t_peak_cenpop"):
                    c = ctx.must("mc_t_peak_cenpop", tc.mc_t_peak_cenpop, comp[0], lgm, tob, keys[0], t0)
                    if c is not None:
                        for i, v in enumerate(np.asarray(c)):
                            evs.append(dict(ev="tp", kind="cen", tp=fx(v), tpe=0, tpl=0, tpsel=0, ref=fx(t0), tol=20))
                            meta.append(dict(kind="mc_t_peak_cenpop", tp=v, t0=t0, lgm=lgm[i], t_obs=tob[i], uniform=force))
                if hasattr(ts, "mc_tpeak_sats"):
                    c = ctx.must("mc_tpeak_sats", ts.mc_tpeak_sats, comp[1], keys[1], lgm, tob)
                    if c is not None:
                        for i, v in enumerate(np.asarray(c)):
                            evs.append(dict(ev="tp", kind="sat", tp=fx(v), tpe=0, tpl=0, tpsel=0, ref=fx(tob[i]), tol=20))
                            meta.append(dict(kind="mc_tpeak_sats", tp=v, lgm=lgm[i], t_obs=tob[i], uniform=force))
                ctx.count(120, ("force", force))
        finally:
            if force is not None:
                jran.uniform = real
    jax.clear_caches()
    ctx.trace("HaloPopTrace", evs, meta, shards=6)
    ctx.notes["rule"] = "one peak time; distinct = (kind, decile of the allowed range) plus forced uniform variates"
    ctx.assumptions += ["supplied peak times are compared after the package's own bounded transform (6e-5 Gyr, single precision)",
                        "t_obs in [2, today]"]
