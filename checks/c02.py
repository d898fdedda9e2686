"""C02 rolling power law anchored at today (spec/MahHistory)."""
import numpy as np
import cfgs, dm
from vf import fx
from c01 import grids


def run(ctx):
    import diffmah
    from diffmah import mah_singlehalo, mah_halopop, logmh_at_t_obs
    from diffmah import diffmah_kernels as dk, defaults as dd
    from diffmah.diffmah_kernels import DiffmahParams
    ctx.model("MahHistoryModel", cfgs.MAH_MODEL % (1 if ctx.quick else 2))
    rng = ctx.rng
    nb, nh, nt = (30, 16, 16) if ctx.quick else (300, 32, 24)
    evs, meta = [], []
    doc = [12.0, 0.05, 2.6137643, 0.12692805, 14.0]
    a, b = [], []
    for m in (diffmah.DEFAULT_MAH_PARAMS, dk.DEFAULT_MAH_PARAMS, dd.DEFAULT_MAH_PARAMS,
              dk.DEFAULT_MAH_PDICT.values(), dd.DEFAULT_MAH_PDICT.values()):
        v = [float(x) for x in m]
        a += fx(v + [0.0] * (5 - len(v)))
        b += fx(doc)
    a += fx([10**dd.LGT0]); b += fx([13.8])
    evs.append(dict(ev="const", k=fx([dk.MAH_K, dd.MAH_K]), a=a, b=b, y=[]))
    meta.append("exposed constants")

    def prec(P, lgt0):
        return dict(m0=fx(P[0]), tc=fx(P[1]), e=fx(P[2]), l=fx(P[3]), lp=fx(np.log10(np.float64(P[4]))), lt0=fx(lgt0))

    def add(ep, P, t, lgt0, y):
        rel = np.sign(np.asarray(t, np.float32).astype(float) - float(np.float32(P[4]))).astype(int)
        lt = fx(np.log10(np.asarray(t, np.float64)))
        evs.append(dict(ev="law", ep=ep, p=prec(P, lgt0), lt=lt, rel=rel.tolist(), y=fx(y)))
        meta.append(dict(entry=ep, params=P, t=t, lgt0=lgt0, y=np.asarray(y)))
        ctx.count(len(lt), *[(ep, int(r), bool(P[1] < l / 1e6)) for r, l in zip(rel, lt)])
    for bb in range(nb):
        lgt0 = float(np.float32(np.log10(13.8 if rng.uniform() < 0.5 else rng.uniform(3, 20))))
        t = grids(rng, nt, lgt0)
        if bb % 3 == 0:
            t[0] = np.float32(10.0**-3)
        P = dm.halos(rng, nh, early_ge_late=bool(rng.integers(4))).astype(np.float32)
        P[: nh // 4, 4] = t[rng.integers(0, nt, nh // 4)].clip(0.05, 20)
        pop = DiffmahParams(*P.T)
        r = ctx.must("mah_halopop", mah_halopop, pop, t, lgt0)
        if r is None:
            return
        Y = np.asarray(r[1])
        for i in range(nh):
            add("halopop", P[i], t, lgt0, Y[i])
        for i in rng.integers(0, nh, 3):
            p1 = DiffmahParams(*[float(x) for x in P[i]])
            s = ctx.must("mah_singlehalo", mah_singlehalo, p1, t, lgt0)
            if s is None:
                return
            add("singlehalo", P[i], t, lgt0, s[1])
        o = ctx.must("logmh_at_t_obs", logmh_at_t_obs, pop, t[:nh], lgt0)
        if o is None:
            return
        for i in range(nh):
            add("at_t_obs", P[i], t[i:i + 1], lgt0, np.asarray(o)[i:i + 1])
        d = float(np.float32(rng.uniform(-2, 2)))
        sh = pop._replace(logm0=(P[:, 0] + np.float32(d)))
        r2 = ctx.must("mah_halopop", mah_halopop, sh, t, lgt0)
        if r2 is None:
            return
        for i in range(0, nh, 4):
            evs.append(dict(ev="shift", y=fx(Y[i]), z=fx(np.asarray(r2[1])[i]), d=fx(d)))
            meta.append(dict(params=P[i], t=t, lgt0=lgt0, shift=d))
    ctx.trace("MahTrace", evs, meta, shards=8)
    ctx.notes["rule"] = "one (halo, time) evaluation; distinct = entry point x side of the peak x side of the transition"
    ctx.assumptions += ["single precision: agreement to 2.5e-5 dex"]
