"""C04 every way of evaluating a history agrees (spec/EvalMemo, spec/EvalTrace)."""
import numpy as np
import dm
from vf import fx

CFG = "SPECIFICATION Spec\nCONSTANTS NH = 2 NT = 2 MaxB = 2 MaxT = 2 Entries = {1, 2}\nINVARIANT Consistent\nPROPERTY Stable\nVIEW View\nCHECK_DEADLOCK FALSE\n"


def lgrate(r):
    r = np.asarray(r, np.float64)
    with np.errstate(all="ignore"):
        out = np.where(r > 0, np.log10(np.where(r > 0, r, 1)), np.where(r == 0, -999.0, np.where(r < 0, -998.0, np.nan)))
    return np.where((out < -30) & (out > -900), -999.0, out)   # single precision underflow


def run(ctx):
    from diffmah import mah_singlehalo, mah_halopop, logmh_at_t_obs
    from diffmah import diffmah_kernels as dk
    from diffmah.diffmah_kernels import DiffmahParams, DiffmahUParams
    ctx.model("EvalMemo", CFG)
    NH, NT = 3, 3
    g = ctx.generate("EvalMemoGen", f"SPECIFICATION GSpec\nCONSTANTS NH = {NH} NT = {NT} MaxB = 3 MaxT = {3 if not ctx.quick else 2} Entries = {{1}}\nCHECK_DEADLOCK FALSE\n")
    rng = ctx.rng
    evs, meta = [], []
    groups = 3 if ctx.quick else 12
    for gi in range(groups):
        lgt0 = np.float32(np.log10(13.8 if gi == 0 else rng.uniform(6, 15)))
        P = dm.halos(rng, NH, edge=False).astype(np.float32)
        P = np.clip(P, [1, -0.9, 0.2, 0.15, 0.5], [16.5, 0.9, 9.5, 4.8, 19])
        P[:, 2] = np.maximum(P[:, 2], P[:, 3] + 0.1)
        if gi % 2:
            P[0, 4] = min(19.5, 10**lgt0 * rng.uniform(1.27, 1.45))
        U = dk.get_unbounded_mah_params(DiffmahParams(*P.T.astype(np.float32)))
        U = np.array([np.asarray(u) for u in U]).T.astype(np.float32)
        # the halos are those named by the unbounded values (so both forms name the same halo)
        Q = np.array([np.asarray(x) for x in dk.get_bounded_mah_params(DiffmahUParams(*U.T))]).T.astype(np.float32)
        T = np.sort(rng.uniform(0.3, 13.5, NT)).astype(np.float32)
        T[1] = np.clip(Q[1, 4] * 0.97, 0.3, 13)
        if gi % 2:      # one time beyond the present, with halos still growing then
            T[2] = 10**lgt0 * rng.uniform(1.03, 1.25)
        T = np.where(np.min(np.abs(T[:, None] / Q[None, :, 4] - 1), axis=1) < 2e-3, T * 1.01, T).astype(np.float32)
        evs.append(dict(ev="start", nh=NH, nt=NT)); meta.append(None)
        # distinct reference values: learnt from the first single-halo evaluation
        first = True

        def rec(entry, kind, b, t, y, r, learn):
            ys = np.asarray(y, np.float64)
            shp = [list(ys.shape)]
            R = []
            if r is not None:
                rs = lgrate(r)
                shp.append(list(rs.shape))
            want = {"single": (len(t),), "pop": (len(b), len(t)), "obs": (len(b),)}[kind]
            ok = all(tuple(s) == want for s in shp)
            form = (lambda a: [fx(a)]) if kind == "single" else (lambda a: [[v] for v in fx(a)]) if kind == "obs" else fx
            evs.append(dict(ev="eval", e=entry, kind=kind, b=b, t=t, shapes=shp, learn=learn,
                            m=form(ys) if ok else [], r=form(rs) if ok and r is not None else []))
            meta.append(dict(entry=entry, halos=P[[i - 1 for i in b]], times=T[[j - 1 for j in t]], lgt0=lgt0, y=ys))
            ctx.count(1, (entry, tuple(b), tuple(t)))
        # Learn the reference from the single-halo entry point, whole grid
        for h in range(1, NH + 1):
            v = ctx.must("mah_singlehalo", mah_singlehalo, DiffmahParams(*Q[h - 1]), T, lgt0)
            if v is None:
                return
            rec("singlehalo", "single", [h], [1, 2, 3], v[1], v[0], True)
        tas = g["t"] if gi == 0 or not ctx.quick else [[3, 1]] + [g["t"][i] for i in rng.permutation(len(g["t"]))[:5]]
        bas = g["b"] if gi == 0 or not ctx.quick else [[h] for h in range(1, NH + 1)] + [g["b"][i] for i in rng.permutation(len(g["b"]))[:9]]
        for t in tas:
            tt = T[[j - 1 for j in t]]
            for b in bas:
                q = Q[[i - 1 for i in b]]
                v = ctx.must("mah_halopop", mah_halopop, DiffmahParams(*q.T), tt, lgt0)
                if v is None:
                    return
                rec("halopop", "pop", b, t, v[1], v[0], False)
                if len(b) == 1:
                    p1, u1 = DiffmahParams(*q[0]), DiffmahUParams(*U[b[0] - 1])
                    v = ctx.must("mah_singlehalo", mah_singlehalo, p1, tt, lgt0)
                    if v is None:
                        return
                    rec("singlehalo", "single", b, t, v[1], v[0], False)
                    for nm, fn in (("u_both", "_diffmah_kern_u_params"), ("both", "_diffmah_kern")):
                        if hasattr(dk, fn):
                            v = ctx.must(fn, getattr(dk, fn), u1 if nm[0] == "u" else p1, tt, lgt0)
                            if v is None:
                                return
                            rec(nm, "single", b, t, v[1], v[0], False)
                    if hasattr(dk, "_log_mah_kern_u_params") and hasattr(dk, "_dmhdt_kern_u_params"):
                        y = ctx.must("_log_mah_kern_u_params", dk._log_mah_kern_u_params, u1, tt, lgt0)
                        r = ctx.must("_dmhdt_kern_u_params", dk._dmhdt_kern_u_params, u1, tt, lgt0)
                        if y is None or r is None:
                            return
                        rec("u_each", "single", b, t, y, r, False)
                    if hasattr(dk, "_diffmah_kern_scalar"):
                        vs = [ctx.must("_diffmah_kern_scalar", dk._diffmah_kern_scalar, p1, x, lgt0) for x in tt]
                        if any(x is None for x in vs):
                            return
                        rec("scalar", "single", b, t, np.array([float(x[1]) for x in vs]), np.array([float(x[0]) for x in vs]), False)
                    o = ctx.must("logmh_at_t_obs", logmh_at_t_obs, p1, tt, lgt0)
                    if o is None:
                        return
                    rec("at_t_obs_times", "single", b, t, o, None, False)
                if len(b) == len(t):
                    o = ctx.must("logmh_at_t_obs", logmh_at_t_obs, DiffmahParams(*q.T), tt, lgt0)
                    if o is None:
                        return
                    rec("at_t_obs", "obs", b, t, o, None, False)
        # large batches: permutation and batch size
        big = dm.halos(rng, 400, edge=False).astype(np.float32)
        big[[7, 199, 391]] = Q
        for sel in (np.arange(400), rng.permutation(400), np.r_[7, 199, 391], np.r_[391, 7, np.arange(50), 199]):
            v = ctx.must("mah_halopop", mah_halopop, DiffmahParams(*big[sel].T), T, lgt0)
            if v is None:
                return
            pos = [int(np.where(sel == k)[0][-1]) for k in (7, 199, 391)]
            shp = np.asarray(v[1]).shape
            if shp != (len(sel), NT):
                ctx.violation("shape", f"population of {len(sel)} gives shape {shp}", dict(shape=shp))
                continue
            rec("bigpop", "pop", [1, 2, 3], [1, 2, 3], np.asarray(v[1])[pos], np.asarray(v[0])[pos], False)
        # long time grids: the same times embedded in a long, unsorted grid
        tl = np.concatenate([rng.uniform(0.1, 14, 500), T, rng.uniform(0.1, 14, 97), T]).astype(np.float32)
        pm = rng.permutation(len(tl))
        v = ctx.must("mah_halopop", mah_halopop, DiffmahParams(*Q.T), tl[pm], lgt0)
        if v is None:
            return
        for off in (500, 600):
            pos = [int(np.where(pm == off + j)[0][0]) for j in range(3)]
            rec("longgrid", "pop", [1, 2, 3], [1, 2, 3], np.asarray(v[1])[:, pos], np.asarray(v[0])[:, pos], False)
    ctx.trace("EvalTrace", evs, meta, shards=1)
    ctx.exhaustive = True
    ctx.notes["rule"] = ("one request; distinct = entry point x batch x time array; all batches of <= 3 of 3 halos and all "
                         "time arrays of <= 2 (quick) or 3 of 3 times, enumerated by TLC from spec/EvalMemo")
    ctx.assumptions += ["values agree to 1e-5 dex (mass) and 6e-5 dex (rate), single precision"]
