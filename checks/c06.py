"""C06 halo-parameter transforms (spec/Transform, TransformModel, TransformTrace)."""
import itertools
import numpy as np
import dm
from vf import fx

LO = [0.0, -1.0, 0.1, 0.1, 0.05]
HI = [17.0, 1.0, 10.0, 5.0, 20.0]
FLOOR = [0, 0, 4, 0, 0]
CFG = "SPECIFICATION Spec\nCONSTANT NL = %d\nINVARIANTS Bounded EarlyAboveLate\nPROPERTY Increases\nCHECK_DEADLOCK FALSE\n"


def run(ctx):
    from diffmah import diffmah_kernels as dk
    from diffmah.diffmah_kernels import DiffmahParams, DiffmahUParams
    NL = 4
    ctx.model("TransformModel", CFG % NL)
    rng = ctx.rng
    evs, meta = [], []
    lo, hi = fx(LO), fx(HI)

    def bounded(u, how):
        if how == "array":
            r = ctx.must("get_bounded_mah_params", dk.get_bounded_mah_params, DiffmahUParams(*np.float32(u).T))
            return None if r is None else np.array([np.broadcast_to(np.asarray(x), len(u)) for x in r]).T
        out = []
        for v in u:
            r = ctx.must("get_bounded_mah_params", dk.get_bounded_mah_params, DiffmahUParams(*[np.float32(x) for x in v]))
            if r is None:
                return None
            out.append([float(x) for x in r])
        return np.array(out)

    def unbounded(p):
        r = ctx.must("get_unbounded_mah_params", dk.get_unbounded_mah_params, DiffmahParams(*np.float32(p).T))
        return None if r is None else np.array([np.asarray(x) for x in r]).T
    mid = np.array([8.5, 0.0, 0.0, 2.55, 10.025])
    # ---- every edge of the model graph, concretised per seed, in array and scalar form
    reps = 1 if ctx.quick else 6
    for rep in range(reps):
        levs = np.array([[m + (2 * n - NL - 1) * 12 + rng.uniform(-3, 3) for n in range(1, NL + 1)] for m in mid])
        if rep == 1:
            levs[:, 0], levs[:, -1] = -1e30, 1e30
        verts = list(itertools.product(range(NL), repeat=5))
        U = np.array([[levs[i][v[i]] for i in range(5)] for v in verts])
        B = bounded(U, "array")
        if B is None:
            return
        index = {v: k for k, v in enumerate(verts)}
        for k, v in enumerate(verts):
            evs.append(dict(ev="bnd", floor=FLOOR, lo=lo, hi=hi, p=fx(B[k])))
            meta.append(dict(u=U[k], p=B[k]))
            ctx.count(1, v)
            for i in range(5):
                if v[i] + 1 < NL:
                    w = v[:i] + (v[i] + 1,) + v[i + 1:]
                    strict = bool(abs(levs[i][v[i]] - mid[i]) < 45 and abs(levs[i][v[i] + 1] - mid[i]) < 45)
                    evs.append(dict(ev="raise", i=i + 1, floor=FLOOR, p=fx(B[k]), q=fx(B[index[w]]), strict=strict))
                    meta.append(dict(u=U[k], raised=i, u2=U[index[w]], p=B[k], q=B[index[w]]))
        sel = rng.integers(0, len(verts), 60)
        S = bounded(U[sel], "scalar")
        if S is None:
            return
        for j, k in enumerate(sel):
            evs.append(dict(ev="rt", a=fx(S[j]), b=fx(B[k]), t=[3] * 5))
            meta.append(dict(scalar=S[j], array=B[k], u=U[k]))
    # ---- random and extreme unbounded values
    n = 300 if ctx.quick else 3000
    U = mid + rng.standard_normal((n, 5)) * 10 ** rng.uniform(0, 3, (n, 5))
    U[: n // 10] = rng.choice([-3e38, -1e20, -1e4, -500, 0, 500, 1e4, 1e20, 3e38], (n // 10, 5))
    B = bounded(U, "array")
    if B is None:
        return
    for k in range(n):
        evs.append(dict(ev="bnd", floor=FLOOR, lo=lo, hi=hi, p=fx(B[k])))
        meta.append(dict(u=U[k], p=B[k]))
    ctx.count(n)
    # saturation reaches the documented limits
    for s, lim in ((-1, LO), (1, HI)):
        u = mid + s * 1e5
        b = bounded(np.array([u]), "scalar")
        if b is None:
            return
        lim = list(lim)
        evs.append(dict(ev="sat", p=fx(b[0]), lim=fx(lim), tol=[40] * 5))
        meta.append(dict(u=u, p=b[0], limit=lim))
    # ---- u -> p -> u where well conditioned; p -> u -> p inside the bounds
    n = 300 if ctx.quick else 3000
    U = mid + rng.uniform(-42, 42, (n, 5))
    B = bounded(U, "array")
    U2 = None if B is None else unbounded(B)
    if U2 is None:
        return
    for k in range(n):
        evs.append(dict(ev="rt", a=fx(np.float32(U[k])), b=fx(U2[k]), t=[3000] * 5))
        meta.append(dict(u=U[k], p=B[k], back=U2[k]))
    P = dm.halos(rng, n, edge=False)
    w = (np.array(HI) - LO)
    eps = 10 ** rng.uniform(-4.7, -2, (n, 5))          # how close to the limits
    P = np.clip(P, np.array(LO) + eps * w, np.array(HI) - eps * w)
    for i in range(5):                                # ... and often just there
        hit = rng.uniform(size=n) < 0.15
        up = rng.uniform(size=n) < 0.5
        P[hit, i] = np.where(up, HI[i] - eps[:, i] * w[i], LO[i] + eps[:, i] * w[i])[hit]
    P[:, 2] = np.maximum(P[:, 2], P[:, 3] + eps[:, 2] * (10 - P[:, 3]))
    P[:, 2] = np.minimum(P[:, 2], 10 - eps[:, 2] * (10 - P[:, 3]))
    P[:3] = [12.0, 0.05, 2.6137643, 0.12692805, 14.0]
    U3 = unbounded(P)
    B3 = None if U3 is None else bounded(U3, "array")
    if B3 is None:
        return
    for k in range(n):
        evs.append(dict(ev="rt", a=fx(np.float32(P[k])), b=fx(B3[k]), t=fx(3e-6 * w + 2e-6)))
        meta.append(dict(p=P[k], u=U3[k], back=B3[k]))
        if k < 40:
            p1 = DiffmahParams(*[np.float32(x) for x in P[k]])
            u1 = ctx.must("get_unbounded_mah_params", dk.get_unbounded_mah_params, p1)
            if u1 is None:
                return
            evs.append(dict(ev="rt", a=fx([float(x) for x in u1]), b=fx(U3[k]), t=[3000] * 5))
            meta.append(dict(p=P[k], scalar=u1, array=U3[k]))
    ctx.count(2 * n)
    d = ctx.must("get_unbounded_mah_params", dk.get_unbounded_mah_params, dk.DEFAULT_MAH_PARAMS)
    if d is None:
        return
    evs.append(dict(ev="rt", a=fx([float(x) for x in d]), b=fx([float(x) for x in dk.DEFAULT_MAH_U_PARAMS]), t=[50] * 5))
    meta.append("defaults")
    evs.append(dict(ev="same", what="field-names", a=list(dk.DEFAULT_MAH_U_PARAMS._fields),
                    b=["u_" + k for k in dk.DEFAULT_MAH_PARAMS._fields]))
    meta.append("field names")
    ctx.trace("TransformTrace", evs, meta, shards=4)
    ctx.exhaustive = True
    ctx.notes["rule"] = "one transform evaluation; distinct = vertices of the level lattice (all 4^5), every edge replayed"
    ctx.assumptions += ["round trip judged where the logistic is between 0.015 and 0.985 (u) or 2e-5 of the range inside the bounds (p)"]
