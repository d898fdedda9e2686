"""C15 mean predictions of the population model (spec/PopMean*)."""
import numpy as np
import popgen, popfam
from vf import fx
CFG = """SPECIFICATION Spec
CONSTANT Tier = %d
INVARIANTS Fractions Peaked Indices Tc Floor0
CHECK_DEADLOCK FALSE
"""
F = ("logm0", "logtc", "early_index", "late_index", "t_peak")


def run(ctx):
    import importlib
    from jax import random as jr
    from diffmah import mah_halopop
    from diffmah.diffmahpop_kernels import bimod_censat_params as bcp, mc_bimod_cens as mcc, mc_bimod_sats as mcs
    ctx.model("PopMeanModel", CFG % (0 if ctx.quick else 1), workers=6, timeout=850)
    rng = ctx.rng
    evs, meta = [], []
    M = lambda n: importlib.import_module("diffmah.diffmahpop_kernels." + n)
    B = popgen.bounds()

    def add(info, **e):
        evs.append(e); meta.append(info)

    def corner():
        """every parameter at a bound or in the middle"""
        return popgen.plain(type(bcp.DEFAULT_DIFFMAHPOP_PARAMS)(**{
            k: (lambda lo, hi: lo + (hi - lo) * float(rng.choice([1e-4, 0.5, 1 - 1e-4])))(*map(float, getattr(B, k))) if not k.startswith(("std", "rho"))
            else getattr(bcp.DEFAULT_DIFFMAHPOP_PARAMS, k) for k in bcp.DEFAULT_DIFFMAHPOP_PARAMS._fields}))

    def uniform():
        return popgen.plain(type(bcp.DEFAULT_DIFFMAHPOP_PARAMS)(**{
            k: float(rng.uniform(*map(float, getattr(B, k)))) if not k.startswith(("std", "rho")) else getattr(bcp.DEFAULT_DIFFMAHPOP_PARAMS, k)
            for k in bcp.DEFAULT_DIFFMAHPOP_PARAMS._fields}))

    def inputs(n):
        lgt0 = np.log10(13.8)
        t0 = 10**lgt0
        lgm = rng.uniform(10, 15, n)
        t = rng.uniform(2, 13.8, n)
        tp = t * rng.uniform(0.05, 1, n)
        e = rng.integers(0, n, max(3, n // 6))
        lgm[e] = rng.choice([10, 12, 15], len(e)); t[e[::2]] = rng.choice([2, 10, 13.8], len(e[::2])); tp[e] = t[e]
        return lgm.astype("f4"), t.astype("f4"), tp.astype("f4"), lgt0

    mods = {"cen": M("bimod_logm0_kernels.logm0_pop_bimod"), "sat": M("bimod_logm0_sats.logm0_pop_bimod_sats")}
    sub = {("cen", c, fam): M(f"bimod_logm0_kernels.logm0_{c}_{fam}") for c in ("c0", "c1") for fam in ("early", "late")}
    sub.update({("sat", c, fam): M(f"bimod_logm0_sats.logm0_{c}_{fam}") for c in ("c0", "c1") for fam in ("early", "late")})
    eb, lb, fec_m, tpc, tps = M("early_index_bimod"), M("late_index_bimod"), M("frac_early_cens"), M("t_peak_kernels.tp_pdf_cens_flex"), M("t_peak_kernels.tp_pdf_sats")
    tcm = {"early": M("logtc_early"), "late": M("logtc_late")}
    IX = {"early": "_alpha", "late": "_beta"}

    def obs(what, P, mod, name, q, f, args, m, t, tp, x=None, tol=40, idx=None):
        fn = getattr(mod, name, None)
        if fn is None:
            return
        r = ctx.must(what, fn, P, *args)
        if r is None:
            return
        if idx is not None:
            r = r[idx]
        r = np.broadcast_to(np.asarray(r, float), m.shape)
        for i in range(len(m)):
            add(dict(what=what, m=m[i], t=t[i], tp=tp[i], got=r[i], params=P), ev="q", q=q, f=f, m=fx(m[i]), t=fx(t[i]), tp=fx(tp[i]),
                x=0 if x is None else fx(x[i]), got=fx(r[i]), tol=tol)
        return r
    n = 12 if ctx.quick else 24
    N = 14 if ctx.quick else 120
    for rep in range(N):
        P = [popgen.plain(bcp.DEFAULT_DIFFMAHPOP_PARAMS), corner(), uniform(), popgen.pop_params(rng, 10)][rep if rep == 0 else 1 + rep % 3]
        add(P, ev="pop", p={k: fx(v) for k, v in P._asdict().items()})
        m, t, tp, lgt0 = inputs(n)
        for kind in ("cen", "sat"):
            sf = "_sats" if kind == "sat" else ""
            for fam in ("early", "late"):
                f = f"_{fam}{sf}"
                for c in ("c0", "c1"):
                    obs(f"{kind} {fam} {c}", P, sub[kind, c, fam], f"_pred_{c}_kern", c, f, (t, tp), m, t, tp)
                obs(f"{kind} {fam} logm0", P, mods[kind], f"_pred_logm0_kern_{fam}", "logm0", f, (m, t, tp), m, t, tp, tol=60)
        for fam in ("early", "late"):
            obs(f"{fam} logtc", P, tcm[fam], "_pred_logtc_kern", "logtc", "_" + fam, (m, t, tp), m, t, tp)
            obs(f"{fam} early index", P, eb, f"_pred_early_index_{fam}", "early", IX[fam], (m, t, tp), m, t, tp)
            obs(f"{fam} late index", P, lb, f"_pred_late_index_{fam}", "late", IX[fam], (m,), m, t, tp)
        fr = obs("early fraction", P, fec_m, "_frac_early_cens_kern", "fec", "", (m, t), m, t, tp)
        if fr is not None:
            for i in range(n):
                add(dict(m=m[i], t=t[i], got=fr[i], params=P), ev="fec", m=fx(m[i]), t=fx(t[i]), got=fx(fr[i]))
        u = np.append(np.sort(rng.uniform(0, 1, n - 2)), [0.05, 1.0]).astype("f4")
        obs("fraction peaked", P, tpc, "_frac_peaked_vs_lgm", "peaked", "", (u, m, t), m, t, tp, x=u)
        obs("satellite location", P, tps, "_get_utp_loc", "satloc", "", (m, t), m, t, tp)
        obs("satellite width", P, tps, "_get_utp_scale", "satscale", "", (m, t), m, t, tp)
        # ---- means of whole halos, and generated halos
        for kind, mod, popf, mcf, _ in popgen.kinds():
            if hasattr(mod, "_mean_diffmah_params_t_peak"):
                r = ctx.must(kind + " mean", mod._mean_diffmah_params_t_peak, P, m, t, tp, jr.PRNGKey(0))
                if r is None:
                    return
                for part in r[:2]:
                    V = np.array([np.broadcast_to(np.asarray(getattr(part, k), float), m.shape) for k in F]).T
                    for i in range(n):
                        add(dict(kind=kind, m=m[i], t=t[i], tp=tp[i], mean=V[i], params=P), ev="mean", v=fx(V[i]))
            S = popgen.plain(P._replace(**{k: 1e-3 for k in P._fields if k.startswith("std_u")}))
            g = ctx.must(kind + " population", popf, S, m, t, jr.PRNGKey(int(rng.integers(1 << 30))), lgt0, tp)
            if g is None:
                return
            for fam, part in (("early", g.mah_params_early), ("late", g.mah_params_late)):
                V = np.array([np.asarray(getattr(part, k), float) for k in F]).T
                sf = "_sats" if kind == "sat" else ""
                for i in range(n):
                    add(dict(kind=kind, fam=fam, m=m[i], t=t[i], tp=tp[i], got=V[i], params=S), ev="drawn", e=f"_{fam}{sf}", c="_" + fam, i=IX[fam],
                        m=fx(m[i]), t=fx(t[i]), tp=fx(tp[i]), got=fx(V[i, :4]), tol=[6000, 4000, 9000, 4000])
            ctx.count(n, *[(kind, rep, int(x)) for x in m])
        # ---- generated halos with the population's own, possibly large, scatter
        Pb = P if rep % 2 == 0 else popgen.plain(P._replace(**{k: float(10**rng.uniform(-1, 1.9)) for k in P._fields if k.startswith("std_u")}))
        for kind, mod, popf, mcf, _ in popgen.kinds():
            g = ctx.must(kind + " population", popf, Pb, m, t, jr.PRNGKey(int(rng.integers(1 << 30))), lgt0, tp)
            if g is None:
                return
            tg = np.sort(np.append(rng.uniform(0.2, 13.8, 7), [1.0, 13.8])).astype("f4")
            h = ctx.must("histories", mah_halopop, g.mah_params, tg, lgt0)
            if h is None:
                return
            V = np.array([np.asarray(getattr(g.mah_params, k), float) for k in F]).T
            Y = np.asarray(h.log_mah, float) if hasattr(h, "log_mah") else np.asarray(h[1], float)
            for i in range(n):
                add(dict(kind=kind, m=m[i], t=t[i], tp=tp[i], halo=V[i], times=tg, log_mah=Y[i], params=Pb), ev="halo", v=fx(V[i]), y=fx(Y[i]), tol=10)
    # ---- components outside the composite
    fam = {f.key: f for f in popfam.leaves()}
    for rep in range(4 if ctx.quick else 40):
        m, t, tp, lgt0 = inputs(n)
        for key in ("ftpt0_cens", "early_index_pop", "tp_pdf_cens"):
            L = fam[key]
            lo, hi = L.lohi()
            v = lo + (hi - lo) * (rng.uniform(0, 1, len(lo)) if rep % 2 else rng.choice([1e-4, .5, 1 - 1e-4], len(lo)))
            P = L.P(*[np.float32(x) for x in v])
            add(P, ev="pop", p={k: fx(x) for k, x in P._asdict().items()})
            if key == "ftpt0_cens":
                r = obs(key, P, L.mod, "_ftpt0_kernel", "ftpt0", "", (m, t), m, t, tp)
            elif key == "early_index_pop":
                obs(key, P, L.mod, "_pred_early_index_kern", "early", "", (m, t, tp), m, t, tp)
            else:
                t0 = np.full(n, rng.uniform(13, 14.5), "f4")
                obs(key, P, L.mod, "_get_singlepdf_params", "censcale", "", (m, t, t0[0]), m, t, tp, x=t0, idx=1)
                obs(key, P, L.mod, "_get_singlepdf_params", "cenloc", "", (m, t, t0[0]), m, t, tp, x=t0, idx=0)
            ctx.count(n, (key, rep))
    ctx.trace("PopMeanTrace", evs, meta, shards=ctx.blocks(evs, lambda e: e["ev"] == "pop", 6))
    ctx.notes["rule"] = "one (parameters, mass, time, peak time) prediction; distinct = (kind, parameter draw, integer mass)"
    ctx.assumptions += ["formulas compared to 4e-5 (6e-5 for logm0)", "generated means compared at scatter 1e-3"]
