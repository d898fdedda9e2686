"""C14 population losses (spec/PopMoments*: BinLoss, MultiLoss)."""
from collections import namedtuple
import numpy as np
import popgen, c13
from vf import fx


def run(ctx):
    import jax, jax.numpy as jnp
    from jax import random as jr
    from diffmah.diffmahpop_kernels import bimod_cens_fithelp as bc, bimod_sats_fithelp as bs, bimod_censat_fithelp as bcs
    from diffmah.diffmahpop_kernels import bimod_censat_params as bcp
    from diffmah.diffmahpop_kernels import mc_bimod_cens as mcc, mc_bimod_sats as mcs
    ctx.model("PopMomentsModel", c13.CFG % 3, workers=4)
    rng = ctx.rng
    evs, meta = [], []

    def add(m, **e):
        evs.append(e); meta.append(m)
    nb, nt = 3, 4

    def bins(same=False, n=nb):
        lgm, tob, _, lgt0 = popgen.inputs(rng, n, tlo=3.0)
        if same:
            lgm[:], tob[:] = lgm[0], tob[0]
        tm = np.sort(rng.uniform(0.8, 1, (n, nt)) * np.linspace(0.3, 1, nt) * tob[:, None], axis=1).astype("f4")
        if same:
            tm[:] = tm[0]
        return lgm, tob, tm, lgt0

    def targets(lgm, n=nb):
        sd = rng.uniform(0.05, 0.8, (n, nt)) * (rng.uniform(size=(n, nt)) > 0.2)      # rescaled samples have no scatter at the final time
        sd[rng.uniform(size=n) < 0.5, -1] = 0.0
        return ((lgm[:, None] - rng.uniform(0, 2, (n, nt))).astype("f4"), sd.astype("f4"),
                rng.uniform(0, 1, (n, nt)).astype("f4"))
    # one compiled function per loss: value and gradient with respect to the targets
    vg1 = {k: jax.jit(jax.value_and_grad(lambda P, tm, lg, to, key, l0, a, b, c, f=m.loss_mah_moments_multibin: f(P, tm, lg, to, key, l0, a, b, c),
                                         argnums=(6, 7, 8))) for k, m in (("cen", bc), ("sat", bs))}
    vgj = jax.jit(jax.value_and_grad(bcs.loss_mah_moments_multibin_censat, argnums=(9, 10, 11, 12, 13, 14)))

    def preds(tgt, g):
        n = tgt[0].size
        return [np.asarray(tgt[i], float) - np.asarray(g[i], float) * n / 2 for i in (0, 1)]

    def binrec(pm, ps, tm, ts):
        out = []
        for b in range(len(pm)):
            ref = np.median(pm[b])
            out.append(dict(m=fx(pm[b] - ref), s=fx(ps[b]), tm=fx(np.asarray(tm[b], float) - ref), ts=fx(ts[b])))
        return out
    for rep in range(4 if ctx.quick else 40):
        P = popgen.pop_params(rng, [0, 4, 10][rep % 3])
        key = jr.PRNGKey(int(rng.integers(1 << 30)))
        for kind, mod, mc in (("cen", bc, mcc), ("sat", bs, mcs)):
            lgm, tob, tm, lgt0 = bins(same=rep % 3 == 1)
            tg = targets(lgm)
            inp = dict(kind=kind, lgm=lgm, t_obs=tob, tarr=tm, lgt0=lgt0, key=np.asarray(key), targets=tg, popparams=P)
            r = ctx.must(kind, vg1[kind], P, tm, lgm, tob, key, lgt0, *tg, timeout=300)
            if r is None:
                return
            L, g = float(r[0]), r[1]
            pm, ps = preds(tg, g)
            add(inp, ev="nonneg", got=fx(L))
            add(inp, ev="loss", bins=binrec(pm, ps, *tg[:2]), got=fx(L), tol=20)
            ctx.count(1, (kind, rep))
            # targets many dex away: still the mean square
            far = ((tg[0] + rng.uniform(-12, 12, tg[0].shape)).astype("f4"), (tg[1] + 10 ** rng.uniform(-1, 1, tg[1].shape)).astype("f4"), tg[2])
            Lf = ctx.must(kind + " far targets", mod.loss_mah_moments_multibin, P, tm, lgm, tob, key, lgt0, *far)
            if Lf is None:
                return
            add(dict(inp, targets=far), ev="loss", bins=binrec(pm, ps, *far[:2]), got=fx(float(Lf)), tol=300)
            z = mod.loss_mah_moments_multibin(P, tm, lgm, tob, key, lgt0, pm.astype("f4"), ps.astype("f4"), tg[2])
            add(inp, ev="zero", got=fx(float(z)), tol=2)
            # what the loss predicts is what the model predicts, up to sampling
            for b in range(nb):
                m = ctx.must(kind + " prediction", mc.predict_mah_moments_singlebin, P, tm[b], lgm[b], tob[b],
                             jr.PRNGKey(int(rng.integers(1 << 30))), lgt0)
                if m is None:
                    return
                mm, ss = np.asarray(m[0], float), np.asarray(m[1], float)
                for k in range(nt):
                    add(dict(inp, bin=b, time=k, pred=pm[b, k], mc=mm[k]), ev="same", what="prediction-of-the-model", a=[fx(pm[b, k])], b=[fx(mm[k])],
                        t=fx(7 * max(ss[k], ps[b, k]) * 0.1 + 2e-3))
            if rep % 3 == 1:
                for b in range(1, nb):
                    add(inp, ev="differ", what="own-stream-per-bin", a=fx(pm[0]), b=fx(pm[b]))
            # one bin
            key1 = jr.PRNGKey(int(rng.integers(1 << 30)))
            m = mc.predict_mah_moments_singlebin(P, tm[0], lgm[0], tob[0], key1, lgt0)
            one = ctx.must(kind + " single bin", mod._loss_mah_moments_singlebin, P, tm[0], lgm[0], tob[0], key1, lgt0, tg[0][0], tg[1][0], tg[2][0])
            if one is None:
                return
            add(inp, ev="loss", bins=binrec([np.asarray(m[0], float)], [np.asarray(m[1], float)], tg[0][:1], tg[1][:1]), got=fx(float(one)), tol=20)
            onef = mod._loss_mah_moments_singlebin(P, tm[0], lgm[0], tob[0], key1, lgt0, far[0][0], far[1][0], far[2][0])
            add(dict(inp, targets=far), ev="loss", bins=binrec([np.asarray(m[0], float)], [np.asarray(m[1], float)], far[0][:1], far[1][:1]),
                got=fx(float(onef)), tol=300)
            add(inp, ev="zero", got=fx(float(mod._loss_mah_moments_singlebin(P, tm[0], lgm[0], tob[0], key1, lgt0, m[0], m[1], m[2]))), tol=1)
            ctx.count(2)
        # ---- joint loss
        same = rep % 3 == 1
        lc, oc, tc, lgt0 = bins(same)
        ls, os_, ts, _ = bins(same)
        if same:
            ls, os_, ts = lc, oc, tc
        gc, gs = targets(lc), targets(ls)
        args = (tc, lc, oc, ts, ls, os_, key, lgt0)
        inp = dict(kind="joint", args=[np.asarray(a) for a in args], targets=(gc, gs), popparams=P)
        r = ctx.must("joint loss", vgj, P, *args, *gc, *gs, timeout=300)
        if r is None:
            return
        L, g = float(r[0]), r[1]
        pc, ps_ = preds(gc, g[:3]), preds(gs, g[3:])
        own = lambda p, t: (p[0].astype("f4"), p[1].astype("f4"), t[2])
        f = lambda a, b: float(bcs.loss_mah_moments_multibin_censat(P, *args, *a, *b))
        Lc, Ls, L0 = f(gc, own(ps_, gs)), f(own(pc, gc), gs), f(own(pc, gc), own(ps_, gs))
        add(inp, ev="nonneg", got=fx(L))
        add(inp, ev="sum", parts=[fx(Lc), fx(Ls)], got=fx(L), tol=20)
        add(inp, ev="loss", bins=binrec(*pc, *gc[:2]), got=fx(Lc), tol=20)
        add(inp, ev="loss", bins=binrec(*ps_, *gs[:2]), got=fx(Ls), tol=20)
        add(inp, ev="zero", got=fx(L0), tol=3)
        fc = ((gc[0] + rng.uniform(-12, 12, gc[0].shape)).astype("f4"), (gc[1] + 10 ** rng.uniform(-1, 1, gc[1].shape)).astype("f4"), gc[2])
        add(dict(inp, far=fc), ev="loss", bins=binrec(*pc, *fc[:2]), got=fx(f(fc, own(ps_, gs))), tol=300)
        for pk, lg, to, tm, mc, gk in ((pc, lc, oc, tc, mcc, "cen"), (ps_, ls, os_, ts, mcs, "sat")):
            for b in range(nb):
                m = mc.predict_mah_moments_singlebin(P, tm[b], lg[b], to[b], jr.PRNGKey(int(rng.integers(1 << 30))), lgt0)
                mm, ss = np.asarray(m[0], float), np.asarray(m[1], float)
                for k in range(nt):
                    add(dict(inp, part=gk, bin=b, pred=pk[0][b, k], mc=mm[k]), ev="same", what="prediction-of-the-model", a=[fx(pk[0][b, k])],
                        b=[fx(mm[k])], t=fx(7 * max(ss[k], pk[1][b, k]) * 0.1 + 2e-3))
        ctx.count(3, ("joint", rep))
    # ---- one stream per halo kind: over seeds, sampling errors of the two kinds are unrelated
    R = {k: 1.0 for k in bcp.DEFAULT_DIFFMAHPOP_PARAMS._fields if k.startswith("std_u_")}
    P = popgen.plain(bcp.DEFAULT_DIFFMAHPOP_PARAMS._replace(**R))
    lc, oc, tc, lgt0 = bins(True)
    gc = targets(lc)
    ns = 60
    D = {k: [] for k in ("cen", "sat", "bin1", "bin2")}
    for s in range(ns):
        _, g = vgj(P, tc, lc, oc, tc, lc, oc, jr.PRNGKey(int(rng.integers(1 << 30))), lgt0, *gc, *gc)
        a, b = preds(gc, g[:3])[0][:, -1], preds(gc, g[3:])[0][:, -1]
        D["cen"].append(a[0]); D["sat"].append(b[0]); D["bin1"].append(a[1]); D["bin2"].append(b[2])
    D = {k: (np.array(v) - np.mean(v)) / np.std(v) for k, v in D.items()}
    for a, b in (("cen", "sat"), ("cen", "bin1"), ("sat", "bin2"), ("bin1", "bin2")):
        add(dict(pair=(a, b), r=np.mean(D[a] * D[b])), ev="zero", got=fx(np.mean(D[a] * D[b])), tol=fx(0.75))
        evs[-1]["ev"] = "same"
        evs[-1].update(what="independent-streams", a=[evs[-1]["got"]], b=[0], t=fx(0.75))
    # ---- overrides
    Pd = bcp.DEFAULT_DIFFMAHPOP_PARAMS
    Ud = bcp.DEFAULT_DIFFMAHPOP_U_PARAMS
    names = list(Pd._fields)
    B = popgen.bounds()
    for rep in range(1 if ctx.quick else 8):
        ks = [str(k) for k in rng.permutation(names)[: int(rng.integers(3, 12))]]
        val = {k: np.float32(rng.uniform(0.05, 0.95) * (getattr(B, k)[1] - getattr(B, k)[0]) + getattr(B, k)[0]) for k in ks}
        V = namedtuple("V", ks)(**val)
        uval = {"u_" + k: np.float32(rng.normal(0, 8)) + np.float32(getattr(Ud, "u_" + k)) for k in ks}
        UV = namedtuple("UV", uval)(**uval)
        full, ufull = popgen.plain(Pd._replace(**val)), type(Ud)(*[np.float32(x) for x in Ud._replace(**uval)])
        key = jr.PRNGKey(int(rng.integers(1 << 30)))
        lc, oc, tc, lgt0 = bins()
        ls, os_, ts, _ = bins()
        gc, gs = targets(lc), targets(ls)
        jd = (tc, lc, oc, ts, ls, os_, key, lgt0, *gc, *gs)
        cd = (tc, lc, oc, key, lgt0, *gc)
        inp = dict(override=val, u=uval)

        def same(what, a, b, tol=30):
            a, b = ctx.must(what, *a, timeout=300), ctx.must(what, *b, timeout=300)
            if a is not None and b is not None:
                a, b = float(a), float(b)
                add(dict(inp, what=what), ev="same", what="override-is-full-set", a=[fx(a)], b=[fx(b)], t=tol + int(abs(b) * 50))
                ctx.count(1, (what, rep))
        same("joint", (bcs.loss_mah_moments_multibin_censat, V, *jd), (bcs.loss_mah_moments_multibin_censat, full, *jd))
        same("joint u", (bcs.loss_mah_moments_multibin_censat_u_params, UV, jd), (bcs.loss_mah_moments_multibin_censat_u_params, ufull, jd))
        pfull = bcp.get_diffmahpop_params_from_u_params(ufull)
        same("joint u/bounded", (bcs.loss_mah_moments_multibin_censat_u_params, UV, jd), (bcs.loss_mah_moments_multibin_censat, pfull, *jd), 200)
        if hasattr(bc, "loss_mah_moments_multibin_u_params"):
            same("cens u", (bc.loss_mah_moments_multibin_u_params, UV, cd), (bc.loss_mah_moments_multibin, pfull, *cd), 200)
    ctx.trace("PopMomentsTrace", evs, meta, shards=4)
    ctx.notes["rule"] = "one loss evaluation; distinct = (kind, parameter draw) or override subset"
    ctx.assumptions += ["predictions inside a loss are read off its gradient with respect to the targets (the loss is quadratic in them)",
                        "agreement of predictions with an independent sample judged at 7 standard errors"]
