"""C07 population-parameter transforms (spec/Transform, PopTables, TransformModel, TransformTrace)."""
import numpy as np
import c06, popfam
from vf import fx


def run(ctx):
    ctx.model("TransformModel", c06.CFG % 3)
    rng = ctx.rng
    fams = popfam.leaves()
    comp = popfam.composite(fams)
    evs, meta = [], []
    reps = 3 if ctx.quick else 25
    leaf_value = {}

    def arr(names, tup):
        return np.array([float(getattr(tup, k)) for k in names])
    for f in fams + [comp]:
        n = len(f.names)
        lo, hi = f.lohi()
        mid, w = 0.5 * (lo + hi), hi - lo
        flo, fhi, zero = fx(lo), fx(hi), [0] * n
        if f is comp:
            evs.append(dict(ev="names", names=f.names)); meta.append(f.key)
        evs.append(dict(ev="decl", names=f.names, lo=flo, hi=fhi)); meta.append(f.key)
        evs.append(dict(ev="same", what="names", a=f.unames, b=["u_" + k for k in f.names])); meta.append(f.key)

        def B(u, what):
            r = ctx.must(f"{f.key}: bounded", f.bounded, f.U(*[np.float32(x) for x in u]))
            return None if r is None else arr(f.names, r)

        def Ub(p):
            r = ctx.must(f"{f.key}: unbounded", f.unbounded, f.P(*[np.float32(x) for x in p]))
            return None if r is None else arr(f.unames, r)
        # tolerance of a single-precision round trip through a logistic in [lo, hi]
        mx = np.maximum(np.abs(lo), np.abs(hi))
        tolu = fx(3e-3 + 1e-6 * mx / (w * 0.0145 * 0.1))
        tolp = fx(4e-6 + 1.5e-6 * np.maximum(mx, w))
        for rep in range(reps):
            u0 = mid + rng.uniform(-40, 40, n)
            p0 = B(u0, "base")
            if p0 is None:
                break
            evs.append(dict(ev="bnd", floor=zero, lo=flo, hi=fhi, p=fx(p0))); meta.append((f.key, u0, p0))
            back = Ub(p0)
            if back is None:
                break
            evs.append(dict(ev="rt", a=fx(np.float32(u0)), b=fx(back), t=tolu)); meta.append((f.key, u0, p0, back))
            # one parameter at a time: raised within the well-conditioned range, and to the far ends
            for i in range(n):
                u1 = u0.copy()
                far = rep == 0 and i % 3 == 1
                u1[i] = mid[i] + 1e4 if far else min(u0[i] + rng.uniform(5, 30), mid[i] + 48)
                p1 = B(u1, "raised")
                if p1 is None:
                    break
                evs.append(dict(ev="raise", i=i + 1, floor=zero, p=fx(p0), q=fx(p1), strict=bool(w[i] > 1e-3)))
                meta.append((f.key, f.names[i], u0, u1, p0, p1))
                if far:
                    evs.append(dict(ev="sat", p=fx([p1[i]]), lim=[fhi[i]], tol=fx([1e-6 * mx[i] + 2e-6])))
                    meta.append((f.key, f.names[i], u1, p1))
            # bounded -> unbounded -> bounded, everywhere inside; and unbounded one at a time
            x = rng.uniform(0.004, 0.996, n)
            near = rng.uniform(size=n) < 0.4                # a hair from a limit
            e = 10 ** rng.uniform(-4, -2, n)
            x = np.where(near, np.where(rng.uniform(size=n) < 0.5, e, 1 - e), x)
            p = lo + w * x
            u = Ub(p)
            if u is None:
                break
            q = B(u, "rt")
            if q is None:
                break
            evs.append(dict(ev="rt", a=fx(np.float32(p)), b=fx(q), t=tolp)); meta.append((f.key, p, u, q))
            for i in rng.permutation(n)[:6]:
                p1 = p.copy()
                p1[i] = lo[i] + w[i] * rng.uniform(0.004, 0.996)
                u1 = Ub(p1)
                if u1 is None:
                    break
                if p1[i] < p[i]:
                    a, b = u1, u
                else:
                    a, b = u, u1
                evs.append(dict(ev="raise", i=int(i) + 1, floor=zero, p=fx(a), q=fx(b), strict=False))
                meta.append((f.key, f.names[i], "unbounding", p, p1, u, u1))
            ctx.count(n + 8, *[(f.key, k) for k in f.names])
        # both ends together, extreme values
        for s, lim in ((-1, lo), (1, hi)):
            for mag in (3e3, 1e30):
                p = B(mid + s * mag, "sat")
                if p is None:
                    break
                evs.append(dict(ev="sat", p=fx(p), lim=fx(lim), tol=fx(1e-6 * mx + 2e-6))); meta.append((f.key, s * mag, p))
                evs.append(dict(ev="bnd", floor=zero, lo=fx(lo - 2e-7 * mx), hi=fx(hi + 2e-7 * mx), p=fx(p)))
                meta.append((f.key, s * mag, p))
        # the stored defaults
        d, du = arr(f.names, f.default), arr(f.unames, f.default_u)
        b = B(du, "default")
        ud = Ub(d)
        if b is None or ud is None:
            continue
        evs.append(dict(ev="rt", a=fx(b), b=fx(d), t=tolp)); meta.append((f.key, "defaults", b, d))
        inner = np.minimum(d - lo, hi - d) > 0.01 * w
        evs.append(dict(ev="rt", a=fx(ud[inner]), b=fx(du[inner]), t=[t for t, k in zip(tolu, inner) if k]))
        meta.append((f.key, "u defaults", ud, du))
        # a value transforms the same way wherever its name appears
        u = mid + 7.0
        got = B(u, "by name")
        gu = Ub(lo + 0.3 * w)
        for k, v, x, t in zip(f.names, got, gu, tolu):
            if k in leaf_value:
                evs.append(dict(ev="rt", a=fx([v, x]), b=fx(leaf_value[k][:2]), t=[20, t])); meta.append((f.key, k, v, x, leaf_value[k]))
            else:
                leaf_value[k] = (v, x, f.key)
    ctx.trace("TransformTrace", evs, meta, shards=6)
    ctx.notes["rule"] = "one transform evaluation; distinct = (component, parameter) pairs raised alone"
    ctx.notes["families"] = len(fams) + 1
    ctx.assumptions += ["round trips judged where the logistic is between 0.015 and 0.985 (u) or 1e-4 of the range inside the limits (p)",
                        "declared limits are the specification's table PopTables"]
