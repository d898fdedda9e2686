"""C27 numeric utilities (spec/Utils*)."""
import re
import numpy as np
from vf import fx
CFG = """SPECIFICATION Spec
CONSTANTS N = %d
 D = %d
 B = %d
INVARIANTS Tiles Uniform Bijection Trimmed Mirror Broadcast Emit
CHECK_DEADLOCK FALSE
"""


def run(ctx):
    from diffmah import utils as ut
    rng = ctx.rng
    out = ctx.model("UtilsModel", CFG % ((5, 9, 3) if ctx.quick else (6, 16, 4)), workers=1)
    ctx.exhaustive = True
    req = [(k, [int(x) for x in re.findall(r"-?\d+", v)]) for k, v in re.findall(r'<<\s*"B",\s*"(\w+)",\s*<<([^>]*)>>', out)]
    evs, meta = [], []
    slope = getattr(ut, "_sig_slope", None)

    def add(ev, **inp):
        evs.append(ev); meta.append(inp)

    def dt(t):
        r = ctx.must("get_dt_array", ut.get_dt_array, t)
        if r is None:
            return False
        add(dict(ev="dt", t=fx(np.asarray(t, float)), dt=fx(np.asarray(r, float).ravel())), t=t)
        return True

    def trim(x, p, tol):
        a = ctx.must("trimmed_mean", ut.trimmed_mean, x, p)
        b = ctx.must("trimmed_mean_and_variance", ut.trimmed_mean_and_variance, x, p)
        if a is None or b is None:
            return False
        add(dict(ev="trim", x=fx(np.asarray(x, float)), p=fx(p), mean=fx(float(a)), mean2=fx(float(b[0])), var=fx(float(b[1])), tol=tol), x=x, p=p)
        return True

    def tri(p, d):
        m = ctx.must("get_cholesky_from_params", ut.get_cholesky_from_params, p)
        if m is None:
            return False
        add(dict(ev="tri", d=d, p=fx(np.asarray(p, "f4").astype(float)), m=fx(np.asarray(m, float))), p=p)
        return True
    # ---- every request of the model
    bylen = {}
    for k, v in req:
        ctx.count(1, (k, len(v)))
        if k == "dt":
            t = np.cumsum(v).astype(float)
            if not dt(t if len(evs) % 3 else t.astype("i8")):
                return
        elif k == "trim":
            bylen.setdefault(len(v), []).append(v)
        elif k == "tri":
            d = v[0]
            n = d * (d + 1) // 2
            for p in (np.arange(1, n + 1).astype("f4"), -np.arange(1, n + 1)[::-1] / 8, rng.permutation(n).astype(int)):
                if not tri(p, d):
                    return
        elif k == "bc":
            vals = [rng.normal(0, 1e3, 1 if m == 0 else m).astype("f4") if rng.uniform() < 0.6 else rng.integers(-2**30, 2**30, 1 if m == 0 else m).astype("i4") for m in v]
            args = [(x[0].item() if rng.uniform() < 0.5 else x[0]) if m == 0 else x for m, x in zip(v, vals)]
            for flag in (False, True):
                s, r = ctx.call(ut.get_1d_arrays, *args, jax_arrays=flag)
                val = lambda z: [str(float(q)) for q in np.asarray(z).ravel()]
                acc = s == "ok"
                shp = acc and all(np.ndim(z) == 1 for z in r)
                if acc and not shp:
                    ctx.violation("not-1d", "broadcast results are not one-dimensional", dict(lens=v))
                add(dict(ev="bc", n=[max(1, m) for m in v], accepted=acc, a=[val(x) for x in vals], out=[val(z) for z in r] if acc else []), args=[np.asarray(a) for a in args], flag=flag, result=str(r)[:200])
    for n, L in bylen.items():
        for v in L if len(L) < 400 else [L[i] for i in rng.permutation(len(L))[: 400 if ctx.quick else 4000]]:
            x = np.asarray(v, float) * rng.choice([1.0, 1.0, 4.0])
            for p in (0.0, 0.125, 0.25, 0.375):
                if not trim(x.astype("f4"), p, 8):
                    return
    # ---- random
    for i in range(60 if ctx.quick else 600):
        n = int(rng.integers(2, 40))
        t = np.sort(rng.uniform(0.01, 14, n)) if i % 2 else np.geomspace(rng.uniform(0.01, 1), 13.8, n)
        if not dt(t if i % 5 else t.astype("f4").astype(float)):
            return
        d = int(rng.integers(1, 13)) if i % 20 else 21 + i // 20
        if not tri(rng.normal(0, 5, d * (d + 1) // 2), d):
            return
        ctx.count(2, ("r", n), ("rd", d))
    for n in ((7, 20, 33, 150) if ctx.quick else (5, 7, 12, 20, 33, 60, 150, 300)):
        for i in range((25 if n < 100 else 4) if ctx.quick else (120 if n < 100 else 20)):
            x = rng.choice(np.arange(-8000, 8000) if n < 30 else np.arange(-2000, 2000), n, replace=False) / 1000.0
            while True:
                p = rng.uniform(0.0, 0.42)
                f = (p * (n - 1)) % 1
                if 0.05 < f < 0.95:
                    break
            p = float(np.float32(np.round(p, 6)))
            if not trim(x.astype("f4"), p, 30):
                return
            ctx.count(1, ("t", n, int(p * 10)))
    for i in range(80 if ctx.quick else 800):
        d = int(rng.integers(1, 9))
        A = rng.normal(0, 1, (d, d + 1))
        C = A @ A.T
        sd = np.sqrt(np.diagonal(C))
        rho = C / np.outer(sd, sd)
        rho = np.round(rho * (rng.uniform(size=(d, d)) < 2), 6)
        if i % 3 == 0 and d > 1:
            z = np.triu(rng.uniform(size=(d, d)) < 0.4, 1)
            rho = np.where(z | z.T, 0.0, rho)
        np.fill_diagonal(rho, 1.0)
        rho = (rho + rho.T) / 2
        s = np.round(10 ** rng.uniform(-1.5, 1.3, d), 5)
        cov = ctx.must("covariance_from_correlation", ut.covariance_from_correlation, rho.astype("f4"), s.astype("f4"))
        if cov is None:
            return
        back = ctx.must("correlation_from_covariance", ut.correlation_from_covariance, cov)
        if back is None:
            return
        add(dict(ev="cov", rho=fx(rho), s=fx(s), cov=fx(np.asarray(cov, float)), back=fx(np.asarray(back, float))), rho=rho, s=s)
        # the same correlation from a covariance given directly, over many decades of scatter
        s2 = 10 ** rng.uniform(-6, 6, d)
        c2 = (rho * np.outer(s2, s2)).astype("f4")
        b2 = ctx.must("correlation_from_covariance", ut.correlation_from_covariance, c2)
        if b2 is None:
            return
        b2 = np.asarray(b2, float)
        add(dict(ev="zero", exact=bool(np.all(b2[c2 == 0] == 0) and np.all(np.isfinite(b2)))), cov=c2)
        add(dict(ev="cov", rho=fx(rho), s=[10**6] * d, cov=fx(rho), back=fx(b2)), cov=c2)
        ctx.count(2, ("c", d, bool((rho == 0).any())))
    q = lambda *a: [float(np.float32(np.round(z, 5))) for z in a]
    for i in range(300 if ctx.quick else 3000):
        x0, lo, hi, xtp, ytp = q(*rng.uniform(-10, 15, 5))
        k = q(rng.choice([-1, 1]) * 10 ** rng.uniform(-1.5, 0.9))[0]
        x = q(x0 + rng.normal(0, 3) / abs(k) if i % 4 else rng.uniform(-30, 30))[0]
        if i % 7 == 0:
            x = x0
        y = ctx.must("_sigmoid", ut._sigmoid, x, x0, k, lo, hi)
        arr = ctx.must("_sigmoid", ut._sigmoid, np.array([x0, x], "f4"), x0, k, lo, hi)
        if slope is not None:
            z = ctx.must("_sig_slope", slope, x, xtp, ytp, x0, k, lo / 5, hi / 5)
        if y is None or (slope is not None and z is None) or arr is None:
            return
        base = dict(x=fx(x), x0=fx(x0), k=fx(k), lo=fx(lo), hi=fx(hi))
        inp = dict(x=x, x0=x0, k=k, lo=lo, hi=hi)
        add(dict(base, ev="sig", y=fx(float(y))), **inp)
        add(dict(base, ev="sig", y=fx(float(np.ravel(arr)[1]))), **inp, array=True)
        if slope is not None:
            add(dict(base, ev="slope", lo=fx(lo / 5), hi=fx(hi / 5), xtp=fx(xtp), ytp=fx(ytp), y=fx(float(z))), **inp, xtp=xtp, ytp=ytp)
        u = k * (x - x0)
        if abs(u) < 5 and abs(hi - lo) > 0.5:
            w = ctx.must("_inverse_sigmoid", ut._inverse_sigmoid, float(y), x0, k, lo, hi)
            if w is None:
                return
            add(dict(base, ev="inv", x=fx(float(w)), y=fx(float(y))), **inp, y=float(y), inverse=float(w))
        ctx.count(1, ("s", i % 4, k > 0, hi > lo))
    ctx.trace("UtilsTrace", evs, meta, shards=6)
    ctx.notes["rule"] = "one call of a utility; distinct = (utility, size)"
    ctx.assumptions += ["broadcast values are representable in single precision", "variances positive; at least one point strictly inside the percentiles",
                        "random samples keep percentiles between points; ties are covered by exact dyadic fractions of the model's samples"]
