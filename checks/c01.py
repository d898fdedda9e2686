"""C01 monotone, frozen from the peak on (spec/MahHistory, spec/MahTrace)."""
import numpy as np
import cfgs, dm
from vf import fx


def grids(rng, n, lgt0):
    t0 = 10**lgt0
    kind = rng.integers(4)
    if kind == 0:
        t = np.linspace(0.02, 1.5 * t0, n)
    elif kind == 1:
        t = np.logspace(-2.5, np.log10(1.5 * t0), n)
    elif kind == 2:
        t = np.sort(rng.uniform(0.05, 1.5 * t0, n))
    else:
        t = np.sort(10 ** rng.uniform(-1.5, np.log10(1.5 * t0), n))
    t = np.asarray(t, dtype=np.float32)
    if rng.uniform() < 0.7:
        t[-2] = np.float32(t0)
        t = np.sort(t)
    return t


def run(ctx):
    from diffmah import mah_singlehalo, mah_halopop, logmh_at_t_obs
    from diffmah.diffmah_kernels import DiffmahParams
    ctx.model("MahHistoryModel", cfgs.MAH_MODEL % (1 if ctx.quick else 2))
    rng = ctx.rng
    nb, nh, nt = (30, 24, 20) if ctx.quick else (300, 48, 40)
    evs, meta = [], []

    def add(ep, p, t, lgt0, y, f, fp, tp):
        rel = np.sign(np.asarray(t, np.float32).astype(float) - float(np.float32(tp))).astype(int)
        y = np.asarray(y)
        evs.append(dict(ev="mass", ep=ep, y=fx(y), f=fx(f), fp=fx(fp), rel=rel.tolist()))
        meta.append(dict(entry=ep, params=p, t=t, lgt0=lgt0, y=y))
        ctx.count(len(y), *[(ep, int(k)) for k in np.unique(rel)])
    for b in range(nb):
        lgt0 = float(np.float32(np.log10(13.8 if rng.uniform() < 0.5 else rng.uniform(5, 15))))
        t = grids(rng, nt, lgt0)
        P = dm.halos(rng, nh, tpk_max=min(20.0, 1.5 * 10**lgt0)).astype(np.float32)
        for i in range(nh):      # place the peak: on a grid point, before, after, between, just around
            r = rng.integers(8)
            if r == 0:
                P[i, 4] = t[rng.integers(nt)]
            elif r == 1:
                P[i, 4] = np.nextafter(t[rng.integers(nt)], np.float32(rng.choice([0, 99])))
            elif r == 2:
                P[i, 4] = max(0.05, t[0] * 0.5)
            elif r == 3:
                P[i, 4] = min(20.0, 1.5 * 10**lgt0)
            elif r >= 6:      # a time a hair (1e-6 .. 3e-2, relative) before or after the peak
                P[i, 4] = t[rng.integers(nt)] * (1.0 + rng.choice([-1, 1]) * 10 ** rng.uniform(-6, -1.5))
            P[i, 4] = np.clip(P[i, 4], 0.05, min(20.0, 1.5 * 10**lgt0))
        params = DiffmahParams(*P.T)
        free = params._replace(t_peak=np.full(nh, 1e3, np.float32))
        a = ctx.must("mah_halopop", mah_halopop, params, t, lgt0)
        f = ctx.must("mah_halopop", mah_halopop, free, t, lgt0)
        fp = ctx.must("logmh_at_t_obs", logmh_at_t_obs, free, params.t_peak, lgt0)
        if a is None or f is None or fp is None:
            return
        Y, F, FP = np.asarray(a[1]), np.asarray(f[1]), np.asarray(fp)
        for i in range(nh):
            add("halopop", P[i], t, lgt0, Y[i], F[i], FP[i], P[i, 4])
        for i in rng.integers(0, nh, 3):
            p1 = DiffmahParams(*[float(x) for x in P[i]])
            s = ctx.must("mah_singlehalo", mah_singlehalo, p1, t, lgt0)
            if s is None:
                return
            add("singlehalo", P[i], t, lgt0, s[1], F[i], FP[i], P[i, 4])
        # one observation time per halo, swept: same halo at every time
        i = int(rng.integers(nh))
        rep = DiffmahParams(*[np.full(nt, x, np.float32) for x in P[i]])
        o = ctx.must("logmh_at_t_obs", logmh_at_t_obs, rep, t, lgt0)
        if o is None:
            return
        add("at_t_obs", P[i], t, lgt0, o, F[i], FP[i], P[i, 4])
    ctx.trace("MahTrace", evs, meta, shards=6)
    ctx.notes["rule"] = "an evaluation is one (halo, time); distinct = entry point x position relative to the peak"
    ctx.assumptions += ["times and peak times up to 1.5 x today's age; single precision, tolerances 5e-6..8e-6 dex"]
