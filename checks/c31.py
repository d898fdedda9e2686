"""C31 peak-time distributions (spec/PeakDist*)."""
import numpy as np
import popgen, popfam
from vf import fx
CFG = """SPECIFICATION Spec
CONSTANTS Tier = %d
 NTab = %d
INVARIANTS Distribution Shapes Density Drawn Later
CHECK_DEADLOCK FALSE
"""
DENSE = np.round(np.concatenate([[0.0503, 0.06, 0.08], np.arange(0.11, 1.0, 0.04), [0.985, 0.9985]]), 4)
AT = {"cen": [0.0503, 0.15, 0.35, 0.6, 0.85, 0.9985], "sat": [0.15, 0.3, 0.5, 0.7, 0.85, 0.97]}


def run(ctx):
    import jax
    from jax import random as jr
    from jax import numpy as jnp
    from diffmah.diffmahpop_kernels import bimod_censat_params as bcp
    from diffmah.diffmahpop_kernels.t_peak_kernels import tp_pdf_cens as ta, tp_pdf_cens_flex as tc, tp_pdf_sats as ts, utp_pdf_kernels as tu
    ctx.model("PeakDistModel", CFG % (0, 50), workers=6, timeout=850)
    if not ctx.quick:
        ctx.model("PeakDistModel", CFG % (1, 50), workers=8, timeout=3000)
        ctx.model("PeakDistModel", CFG % (0, 200), workers=8, timeout=3000)
    rng = ctx.rng
    evs, meta = [], []

    def add(info, **e):
        evs.append(e); meta.append(info)

    def key():
        return jr.PRNGKey(int(rng.integers(1 << 30)))

    def comp(mod, bounds, default, how):
        v = {}
        for k in default._fields:
            lo, hi = map(float, getattr(bounds, k))
            v[k] = float(getattr(default, k)) if how == 0 else float(rng.uniform(lo, hi)) if how == 1 else \
                lo + (hi - lo) * float(rng.choice([1e-3, 0.5, 1 - 1e-3]))
        return type(default)(*[np.float32(v[k]) for k in default._fields])
    CB, SB, AB = tc.TPCENS_PBOUNDS, ts.TP_SATS_BOUNDS, ta.TPCENS_PBOUNDS

    def sat_order(p):
        return fx([p.utp_loc_lgm_ylo_t0, p.utp_loc_lgm_ylo_early, p.utp_loc_lgm_ylo_late, p.utp_loc_lgm_x0,
                   p.utp_scale_lgm_ylo_t0, p.utp_scale_lgm_ylo_early, p.utp_scale_lgm_ylo_late])

    def cen_order(p):
        return fx([p.cen_tp_lgm_x0_x0, p.cen_tp_t_obs_x0_x0, p.cen_tp_x0_ylo_early, p.cen_tp_x0_yhi_early, p.cen_tp_x0_ylo_late, p.cen_tp_x0_yhi_late])

    def alt_order(p):
        return fx([p.tpck_scale_boost_early, p.tpck_scale_mh_lo, p.tpck_scale_mh_hi])

    # ------------------------------------------------------------- laws
    n = 24 if ctx.quick else 200
    for rep in range(n):
        how = 0 if rep == 0 else 1 + rep % 2
        lgm, tob, _, lgt0 = popgen.inputs(rng, 3, tlo=2.0)
        t0 = np.float32(10**lgt0)
        pc, ps, pa = comp(tc, CB, tc.DEFAULT_TPCENS_PARAMS, how), comp(ts, SB, ts.DEFAULT_TP_SATS_PARAMS, how), comp(ta, AB, ta.DEFAULT_TPCENS_PARAMS, how)
        us = np.sort(rng.uniform(0.051, 0.999, 9)).astype("f4")
        for i in range(3):
            m, t = lgm[i], tob[i]
            x0 = ctx.must("_get_utp_x0_from_lgm", tc._get_utp_x0_from_lgm, pc, m, t)
            y = ctx.must("_frac_peaked_vs_lgm", tc._frac_peaked_vs_lgm, pc, us, m, t)
            if x0 is None or y is None:
                return
            info = dict(params=pc, lgm=m, t_obs=t)
            add(info, ev="shape", what="central-midpoint", kind="cen", p=cen_order(pc), m=fx(m), t=fx(t), t0=fx(t0), got=[fx(x0)])
            add(info, ev="law", kind="cen", s=[fx(x0), 0], xs=fx(us), cdf=fx(y), den=[])
            loc, sc = ctx.must("_get_utp_loc", ts._get_utp_loc, ps, m, t), ctx.must("_get_utp_scale", ts._get_utp_scale, ps, m, t)
            if loc is None or sc is None:
                return
            add(dict(params=ps, lgm=m, t_obs=t), ev="shape", what="satellite-location-and-width", kind="sat", p=sat_order(ps), m=fx(m), t=fx(t), t0=fx(t0), got=fx([loc, sc]))
            al = ctx.must("_get_singlepdf_params", ta._get_singlepdf_params, pa, m, t, t0)
            if al is None:
                return
            info = dict(params=pa, lgm=m, t_obs=t, t0=t0)
            add(info, ev="shape", what="alternative-location-and-width", kind="alt", p=alt_order(pa), m=fx(m), t=fx(t), t0=fx(t0), got=fx([float(x) for x in al]))
            s = [float(x) for x in al]
            xs = np.append(us[us > 0.1], [1.0, 0.09]).astype("f4") * t0
            c = ctx.must("cdf of centrals", jax.vmap(ta._t_peak_cen_cdf_singlehalo_kern, (None, None, None, 0, None)), pa, m, t, xs, t0)
            d = ctx.must("pdf of centrals", jax.vmap(ta._t_peak_cen_pdf_singlehalo_kern, (None, None, None, 0, None)), pa, m, t, xs, t0)
            if c is None or d is None:
                return
            # 1 itself is left to the distribution: the density's edge is not asked of float32
            add(info, ev="law", kind="alt", s=fx(s), xs=fx(xs / t0), cdf=fx(c), den=fx((np.asarray(d, float) * s[1] * float(t0))[:-2]))
        loc, sc = np.float32(rng.uniform(0.12, 0.98)), np.float32(rng.choice([rng.uniform(0.02, 0.1), rng.uniform(0.1, 0.99)]))
        xs = np.append(rng.uniform(0.11, 0.99, 8), [0.05, 1.0, 1.2]).astype("f4")
        c, d = [ctx.must("truncated normal", f, xs, (loc, sc)) for f in (tu._tp_cdf_kern, tu._tp_pdf_kern)]
        if c is None or d is None:
            return
        add(dict(loc=loc, scale=sc), ev="law", kind="utp", s=fx([loc, sc]), xs=fx(xs), cdf=fx(c), den=fx((np.asarray(d, float) * float(sc))[:-3]))
        ctx.count(10, ("law", how))

    # ------------------------------------------------------------- samples
    def sample(info, kind, p, m, t, t0, u, per=False, slack=1500):
        m, t, u = [np.asarray(x, float) for x in (m, t, u)]
        at = fx(AT["cen" if kind == "cen" else "sat"])
        cut = [np.quantile(m, q) for q in (0, 1 / 3, 2 / 3)], np.quantile(t, 0.5)
        same = np.ptp(m) == 0 or per
        for a in range(1 if same else 3):
            for b in range(1 if same else 2):
                w = np.ones(len(m), bool) if same else (m >= cut[0][a]) & ((m < cut[0][a + 1]) if a < 2 else True) & ((t >= cut[1]) == bool(b))
                if w.sum() == 0:
                    continue
                ix = np.where(w)[0]
                add(dict(info, stratum=(a, b), lgm=[m[ix].min(), m[ix].max()], t_obs=[t[ix].min(), t[ix].max()], n=len(ix)), ev="sample", kind=kind,
                    p=[p[i] for i in ix] if per else p, per=per, t0=fx(t0), m=fx(m[ix]), t=fx(t[ix]), u=fx(u[ix]), at=at, slack=slack)
        ctx.count(len(m), *[(info["by"], int(10 * x)) for x in u[:50]])
    # ---- many draws for one halo
    def tally(info, kind, p, m, t, t0, u, slack):
        u = np.asarray(u, float)
        n = len(u) // 10000 * 10000
        u = u[:n]
        at = DENSE if kind == "cen" else DENSE[DENSE > 0.1]
        add(dict(info, lgm=m, t_obs=t, t0=t0), ev="tally", kind=kind, p=p, m=fx(m), t=fx(t), t0=fx(t0), n=n, lo=fx(u.min()), hi=fx(u.max()), at=fx(at),
            cnt=[int((u <= x).sum()) for x in at], slack=slack)
        ctx.count(n, (info["by"], kind, int(4 * u.mean())))
    one = jax.jit(jax.vmap(tc.mc_tpeak_singlecen, (None, None, None, 0, None)))
    oneu = jax.jit(jax.vmap(tc.mc_utp_singlecen, (None, None, None, 0)))
    ones = jax.jit(jax.vmap(ts.mc_tpeak_singlesat, (None, 0, None, None)))
    onea = jax.jit(jax.vmap(ta.mc_tpeak_singlecen, (None, 0, None, None, None)))
    oneq = jax.jit(jax.vmap(tu.mc_tp_pdf_singlesat, (0, None)))
    ND = 100000 if ctx.quick else 400000
    TC, TS = 40, 1000
    for rep in range(10 if ctx.quick else 80):
        how = rep % 3
        lgm, tob, _, lgt0 = popgen.inputs(rng, 1, tlo=2.0)
        m = np.float32([11.0, 11.5, 15.0, 12.5, rng.uniform(11, 15)][rep % 5])
        t = np.float32([2.2, 13.4, rng.uniform(2, 5), rng.uniform(5, 13)][rep % 4])
        t0 = np.float32(10**lgt0)
        pc, ps, pa = comp(tc, CB, tc.DEFAULT_TPCENS_PARAMS, how), comp(ts, SB, ts.DEFAULT_TP_SATS_PARAMS, how), comp(ta, AB, ta.DEFAULT_TPCENS_PARAMS, how)
        q = tu.UTP_Params(np.float32(rng.uniform(0.12, 0.98)), np.float32([rng.uniform(0.01, 0.05), rng.uniform(0.05, 0.2), rng.uniform(0.2, 0.99)][rep % 3]))
        ks = jr.split(key(), ND)
        F = np.full(ND, 1, "f4")
        jobs = [("mc_tpeak_singlecen", "cen", pc, cen_order, one, (pc, m, t, ks, t0), t0, TC), ("mc_tpeak_singlesat", "sat", ps, sat_order, ones, (ps, ks, m, t), t, TS),
                ("alternative mc_tpeak_singlecen", "alt", pa, alt_order, onea, (pa, ks, m, t, t0), t0, TS), ("mc_tp_pdf_singlesat", "utp", q, fx, oneq, (ks, q), 1.0, TS)]
        jobs += [[("mc_t_peak_cenpop", "cen", pc, cen_order, tc.mc_t_peak_cenpop, (pc, m * F, t * F, ks[0], t0), t0, TC),
                  ("mc_tpeak_sats", "sat", ps, sat_order, ts.mc_tpeak_sats, (ps, ks[1], m * F, t * F), t, TS)],
                 [("mc_tpeak_cens", "alt", pa, alt_order, ta.mc_tpeak_cens, (pa, ks[2], m * F, t * F, t0), t0, TS),
                  ("mc_utp_singlecen", "cen", pc, cen_order, oneu, (pc, m, t, ks), 1.0, TC)],
                 [("mc_utp_pdf", "sat", ps, sat_order, ts.mc_utp_pdf, (ps, ks[3], m * F, t * F), 1.0, TS),
                  ("mc_tp_pdf_satpop", "utp", q, fx, tu.mc_tp_pdf_satpop, (ks[4], tu.UTP_Params(q[0] * F, q[1] * F)), 1.0, TS)]][rep % 3]
        for by, kind, p, order, f, args, unit, slack in jobs:
            v = ctx.must(by, f, *args)
            if v is None:
                return
            tally(dict(by=by, params=p), kind, order(p), float(m), float(t), float(t0), np.asarray(v) / unit, slack)
        if rep < (4 if ctx.quick else 30):
            for kind, mod, popf, mcf, _ in popgen.kinds():
                P = popgen.pop_params(rng, 10)
                P = P._replace(**{k: np.float32(getattr(pc if k.startswith("cen_tp") else ps, k)) for k in pc._fields + ps._fields})
                order = cen_order(P) if kind == "cen" else sat_order(P)
                nd = 30000
                r = ctx.must(popf.__name__, lambda: popf(P, m * F[:nd], t * F[:nd], key(), lgt0).mah_params.t_peak)
                if r is None:
                    return
                tally(dict(by=popf.__name__, params=P), kind, order, float(m), float(t), float(t0), np.asarray(r) / (t0 if kind == "cen" else t), TC + 40 if kind == "cen" else TS + 100)
    # ---- populations: every halo its own
    N = 1500 if ctx.quick else 6000
    for rep in range(2 if ctx.quick else 30):
        how = 1 + rep % 2
        lgm, tob, _, lgt0 = popgen.inputs(rng, N, tlo=2.0)
        lgm[:40], tob[:40] = 15.0, rng.choice([2.0, 13.4], 40)
        t0 = np.float32(10**lgt0)
        pc, ps, pa = comp(tc, CB, tc.DEFAULT_TPCENS_PARAMS, how), comp(ts, SB, ts.DEFAULT_TP_SATS_PARAMS, how), comp(ta, AB, ta.DEFAULT_TPCENS_PARAMS, how)
        g = lambda by, f, *a: ctx.must(by, f, *a)
        v = g("mc_t_peak_cenpop", tc.mc_t_peak_cenpop, pc, lgm, tob, key(), t0)
        w = g("mc_tpeak_sats", ts.mc_tpeak_sats, ps, key(), lgm, tob)
        a = g("mc_tpeak_cens", ta.mc_tpeak_cens, pa, key(), lgm, tob, t0)
        q = np.array([rng.uniform(0.12, 0.98, 600), np.where(rng.uniform(size=600) < 0.5, rng.uniform(0.01, 0.1, 600), rng.uniform(0.1, 0.99, 600))]).astype("f4")
        x = g("mc_tp_pdf_satpop", tu.mc_tp_pdf_satpop, key(), tu.UTP_Params(*q))
        if any(z is None for z in (v, w, a, x)):
            return
        sample(dict(by="mc_t_peak_cenpop", params=pc), "cen", cen_order(pc), lgm, tob, t0, np.asarray(v) / t0, slack=60)
        sample(dict(by="mc_tpeak_sats", params=ps), "sat", sat_order(ps), lgm, tob, t0, np.asarray(w) / tob)
        sample(dict(by="mc_tpeak_cens", params=pa), "alt", alt_order(pa), lgm, tob, t0, np.asarray(a) / t0)
        sample(dict(by="mc_tp_pdf_satpop"), "utp", [fx([c, d]) for c, d in q.T], np.arange(600), np.arange(600), t0, np.asarray(x), per=True)
        # whole generators, with and without histories
        for kind, mod, popf, mcf, _ in popgen.kinds():
            P = popgen.pop_params(rng, [0, 10, 25][how])
            P = P._replace(**{k: np.float32(getattr(pc if k.startswith("cen_tp") else ps, k)) for k in pc._fields + ps._fields})
            order = cen_order(P) if kind == "cen" else sat_order(P)
            tarr = np.array([1.0, t0], "f4")
            for by, tp in ((popf.__name__, lambda: popf(P, lgm, tob, key(), lgt0).mah_params.t_peak),
                           (mcf.__name__, lambda: mcf(P, tarr, lgm, tob, key(), lgt0).mah_params.t_peak)):
                r = ctx.must(by, tp)
                if r is None:
                    return
                sample(dict(by=by, params=P), kind, order, lgm, tob, t0, np.asarray(r) / (t0 if kind == "cen" else tob), slack=100 if kind == "cen" else 1500)
    ctx.trace("PeakDistTrace", evs, meta, shards=8)
    ctx.notes["rule"] = "one law evaluation or one drawn peak time; distinct = (generator, tenth of the range)"
    ctx.assumptions += ["shares judged at 6 standard deviations plus the interpolation error of a 50-point table (0.1 per cent of the halos; 0.004 per cent for centrals)",
                        "generated peak times are in single precision"]
