"""C03 the accretion rate is the derivative of the mass (spec/MahTrace rate, gain)."""
import numpy as np
import cfgs, dm
from vf import fx, NAN


def run(ctx):

    from diffmah import mah_singlehalo, mah_halopop
    from diffmah import diffmah_kernels as dk
    from diffmah.diffmah_kernels import DiffmahParams
    ctx.model("MahHistoryModel", cfgs.MAH_MODEL % (1 if ctx.quick else 2))
    rng = ctx.rng
    nb, nh, nt = (20, 20, 16) if ctx.quick else (200, 32, 24)
    evs, meta = [], []
    h = 1e-4
    with dm.x64():
        x64ok = np.asarray(mah_singlehalo(dk.DEFAULT_MAH_PARAMS, np.array([1.0, 2.0]), np.log10(13.8))[1]).dtype == np.float64
    # single precision fallback step if the code does not compute in double precision
    for b in range(nb):
        lgt0 = float(np.log10(13.8 if rng.uniform() < 0.5 else rng.uniform(5, 15)))
        tmax = np.log10(1.5) + lgt0
        lt = np.sort(rng.uniform(-1.3 if b % 2 else -2.3, tmax - 2 * h, nt))
        P = dm.halos(rng, nh, tpk_max=min(20, 1.5 * 10**lgt0)).astype(np.float32).astype(float)
        t = (10**lt).astype(np.float32).astype(float)
        lt = np.log10(t)
        k = rng.integers(0, nt, nh // 3)
        P[: nh // 3, 4] = np.clip(t[k], 0.05, min(20, 1.5 * 10**lgt0))
        pop = DiffmahParams(*P.T)
        r32 = ctx.must("mah_halopop", mah_halopop, DiffmahParams(*P.T.astype(np.float32)), t.astype(np.float32), np.float32(lgt0))
        if r32 is None:
            return
        R32, Y32 = [np.asarray(a, np.float64) for a in r32]
        if x64ok:
            with dm.x64():
                R, Y = [np.asarray(a) for a in mah_halopop(pop, t, lgt0)]
                Yp = np.asarray(mah_halopop(pop, 10 ** (lt + h), lgt0)[1])
                Ym = np.asarray(mah_halopop(pop, 10 ** (lt - h), lgt0)[1])
            D = (Yp - Ym) / (2 * h)
        for i in range(nh):
            tp = P[i, 4]
            rel = np.sign(t.astype(np.float32) - np.float32(tp)).astype(int)
            big = Y32[i] > -10
            S32 = np.where(big, R32[i] * 1e9 * t / 10 ** np.maximum(Y32[i], -30), np.minimum(R32[i], 0.0))
            if x64ok:
                S = R[i] * 1e9 * t / 10 ** Y[i]
                d = np.where((t * 10 ** (1.5 * h) < tp), D[i], np.nan)
                evs.append(dict(ev="rate", y=fx(S), d=fx(d), rel=rel.tolist(), raw=[int(v != 0) for v in R[i]]))
                meta.append(dict(params=P[i], t=t, lgt0=lgt0, rate=R[i], log_mah=Y[i], fd=d))
                rel0 = np.where(rel == 0, np.nan, 1.0)  # rate at the peak itself: either one-sided value
                evs.append(dict(ev="prec", y=fx(np.where(big, S32, 0)), z=fx(np.where(big, S, 0))))
                meta.append(dict(params=P[i], t=t, lgt0=lgt0, rate32=R32[i], rate64=R[i]))
            evs.append(dict(ev="rate", y=fx(S32), d=[NAN] * nt, rel=rel.tolist(), raw=[int(v != 0) for v in R32[i]]))
            meta.append(dict(params=P[i], t=t, lgt0=lgt0, rate=R32[i], log_mah=Y32[i]))
            ctx.count(nt, *[(int(a), int(c // 1)) for a, c in zip(rel, Y32[i])])
        # scalar / single-halo / direct entry points
        for i in rng.integers(0, nh, 4):
            p1 = DiffmahParams(*[np.float32(x) for x in P[i]])
            tt = t.astype(np.float32)
            s = ctx.must("mah_singlehalo", mah_singlehalo, p1, tt, np.float32(lgt0))
            rel = np.sign(tt - np.float32(P[i, 4])).astype(int)
            if s is None:
                return
            cands = [np.asarray(s[0], np.float64)]
            for nm in ("_dmhdt_kern",):
                if hasattr(dk, nm):
                    v = ctx.must(nm, getattr(dk, nm), p1, tt, np.float32(lgt0))
                    if v is not None:
                        cands.append(np.asarray(v, np.float64))
            if hasattr(dk, "_diffmah_kern_scalar"):
                v = [ctx.must("_diffmah_kern_scalar", dk._diffmah_kern_scalar, p1, x, np.float32(lgt0)) for x in tt]
                if all(x is not None for x in v):
                    cands.append(np.array([float(x[0]) for x in v]))
            big = Y32[i] > -10
            for rr in cands:
                S1 = np.where(big, rr * 1e9 * t / 10 ** np.maximum(Y32[i], -30), np.minimum(rr, 0))
                S0 = np.where(big, R32[i] * 1e9 * t / 10 ** np.maximum(Y32[i], -30), np.minimum(R32[i], 0))
                evs.append(dict(ev="prec", y=fx(S1), z=fx(S0)))
                meta.append(dict(params=P[i], t=t, lgt0=lgt0, rate=rr, ref=R32[i]))
                evs.append(dict(ev="rate", y=fx(S1), d=[NAN] * nt, rel=rel.tolist(), raw=[int(v != 0) for v in rr]))
                meta.append(dict(params=P[i], t=t, lgt0=lgt0, rate=rr))
        # integral of the rate over an interval before the peak
        if x64ok:
            n = 65
            for i in rng.integers(0, nh, 3):
                hi = min(P[i, 4] * 0.999, 1.5 * 10**lgt0)
                lo = max(hi * rng.uniform(0.3, 0.9), 0.02)
                if hi <= lo:
                    continue
                x = np.linspace(np.log(lo), np.log(hi), n)
                with dm.x64():
                    r, y = [np.asarray(a) for a in mah_singlehalo(DiffmahParams(*P[i]), np.exp(x), lgt0)]
                w = (x[1] - x[0]) * r * np.exp(x) * 1e9 / 10 ** y[-1]
                evs.append(dict(ev="gain", y=fx(w), gain=fx(1 - 10 ** (y[0] - y[-1]))))
                meta.append(dict(params=P[i], lo=lo, hi=hi, lgt0=lgt0))
    ctx.trace("MahTrace", evs, meta, shards=8)
    ctx.notes["rule"] = "one (halo, time) rate; distinct = side of the peak x decade of mass"
    ctx.notes["double_precision_run"] = bool(x64ok)
    ctx.assumptions += ["finite differences of the code's own mass in double precision (step 1e-4 dex), agreement 6e-5",
                        "rate checked relative to mass only where log10 mass > -10 (single precision underflow below)"]
