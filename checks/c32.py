"""C32 fits of single components of the population model (spec/FitComp*)."""
import importlib, warnings
import numpy as np
import fitlib
from vf import fx
CFG = """SPECIFICATION Spec
CONSTANT Steps = %d
INVARIANTS Mine NonNeg OwnIsZero Best Adds
PROPERTY NeverWorse
CHECK_DEADLOCK FALSE
"""


def run(ctx):
    import scipy.optimize
    ctx.model("FitCompModel", CFG % (1 if ctx.quick else 2), workers=6, timeout=3000)
    rng = ctx.rng
    evs, meta = [], []
    P = "diffmah.diffmahpop_kernels."
    comps = []
    for d, sfx in (("bimod_logm0_kernels", ""), ("bimod_logm0_sats", "_sats")):
        for c in ("c0", "c1"):
            for e in ("early", "late"):
                m = importlib.import_module(f"{P}{d}.logm0_{c}_{e}")
                comps.append((f"{c}_{e}{sfx}", c, m, getattr(m, f"LGM0POP_{c.upper()}_BOUNDS"), getattr(m, f"DEFAULT_LGM0POP_{c.upper()}_PARAMS"),
                              getattr(m, f"_pred_{c}_kern"), getattr(m, f"fit_global_{c}_model"), f"_{e}{sfx}"))
    tu, ta = [importlib.import_module(P + "t_peak_kernels." + k) for k in ("utp_pdf_kernels", "tp_pdf_cens")]
    real = scipy.optimize.minimize

    class Failing:
        """the quasi-Newton stage gives up at once"""
        def __init__(self, on):
            self.on = on

        def __enter__(self):
            def fn(fun, x0, *a, **k):
                r = scipy.optimize.OptimizeResult(x=np.asarray(x0, float), fun=float("nan"), success=False, message="gave up")
                return r
            self.fn = fn
            if self.on:
                fitlib.swap(real, fn)

        def __exit__(self, *a):
            if self.on:
                fitlib.swap(self.fn, real)

    def named(p, names, sfx):
        strip = [n[:-len(sfx)] if n.endswith(sfx) else n for n in names]
        return {k: fx(float(v)) for k, v in zip(strip, np.asarray([float(x) for x in p]))}

    def add(info, res, kind, proj, p0, data, forced, start, recover=False, p1=None):
        p, loss, term, code = res
        ok = bool(np.all(np.isfinite(np.array([float(x) for x in p]))) and np.isfinite(float(loss)))
        evs.append(dict(ev="fit", kind=kind, p=proj(p), p0=proj(p0), data=[dict(t=fx(float(t)), x=fx(x), y=fx(y)) for t, x, y in data], loss=fx(float(loss)), ok=ok,
                        code=int(code), term=bool(term), forced=forced, start=start, recover=recover, p1=proj(p1) if p1 is not None else proj(p0)))
        meta.append(dict(info, start=np.array([float(x) for x in p0]), result=np.array([float(x) for x in p]), loss=float(loss), code=int(code), forced=forced, data=data))
    n = 5 if ctx.quick else 40
    for name, kind, mod, B, D, f, fit, sfx in comps:
        proj = lambda p, D=D, sfx=sfx: named(p, D._fields, sfx)
        for rep in range(n):
            truth = type(D)(*[float(np.float32(rng.uniform(*b))) for b in B])
            data = []
            for t in rng.uniform(2, 13.5, [4, 6, 1, 2, 5][rep % 5]):
                x = np.sort(rng.uniform(0.3, t, int(rng.integers(3, 15))))
                y = np.asarray(f(truth, t, x), float)
                if rep % 5 in (1, 4):
                    y = y + rng.normal(0, rng.uniform(0.03, 0.3), len(x))
                data.append((float(t), x, y))
            start = "own" if rep % 5 in (0, 2) else "other"
            p0 = truth if start == "own" else D if rep % 2 else type(D)(*[float(np.float32(rng.uniform(*b))) for b in B])
            forced = rep % 5 in (3, 4)
            with Failing(forced), warnings.catch_warnings():
                warnings.simplefilter("ignore")
                jd = [(np.float32(t), x.astype("f4"), y.astype("f4")) for t, x, y in data]
                # the default start only when none is given
                res = ctx.must(f"fit of {name}", (lambda: fit(jd)) if p0 is D else (lambda: fit(jd, p_init=p0)), timeout=240)
            if res is None:
                continue
            add(dict(component=name, truth=truth), res, kind, proj, p0, data, forced, start)
            ctx.count(1, (name, forced, start))
    pr = lambda p: dict(loc=fx(float(p[0])), scale=fx(float(p[1])))
    for rep in range(12 if ctx.quick else 120):
        x = np.sort(rng.uniform(0.11, 0.99, int(rng.integers(12, 60)))) if rep % 2 else np.linspace(0.12, 0.98, 50)
        good = rep % 3 != 2
        q = (rng.uniform(0.25, 0.85), rng.uniform(0.08, 0.35)) if good else (rng.uniform(0.11, 0.98), rng.uniform(0.08, 0.95))
        y = np.asarray(tu._tp_pdf_kern(x, q), float)
        noise = rep % 4 == 3
        if noise:
            y = np.abs(y + rng.normal(0, 0.3, len(x)))
        forced = rep % 6 == 5
        with Failing(forced), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            r = ctx.must("t_peak_fitter", tu.t_peak_fitter, x.astype("f4"), y.astype("f4"), timeout=240)
        if r is not None:
            add(dict(component="t_peak_fitter", truth=q), r, "utp", pr, tu.DEFAULT_UTP_PARAMS, [(1.0, x, y)], forced, "other", good and not noise and not forced and len(x) >= 20, q)
        t0 = rng.uniform(13.3, 14.2)
        start = ("own", "other", "default")[rep % 3]
        u0 = tu.DEFAULT_UTP_U_PARAMS if start == "default" else tu.get_unbounded_utp_params(tu.UTP_Params(*(q if start == "own" else (rng.uniform(0.2, 0.9), rng.uniform(0.1, 0.9)))))
        kw = {} if start == "default" else dict(u_p_init=u0)
        if rep % 4 == 1:
            kw.update(nstep=int(rng.integers(20, 60)), n_warmup=int(rng.integers(0, 3)))
        with Failing(forced), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            r = ctx.must("t_peak_cens_fitter", lambda: ta.t_peak_cens_fitter((x * t0).astype("f4"), (y / t0).astype("f4"), np.float32(t0), **kw), timeout=240)
        if r is not None:
            add(dict(component="t_peak_cens_fitter", truth=q, t0=t0, settings=kw), r, "cens", pr, tu.get_bounded_utp_params(tu.UTP_UParams(*u0)), [(t0, x * t0, y / t0)],
                forced, "own" if start == "own" and not noise else "other")
        ctx.count(2, ("peak", forced, start))
    ctx.trace("FitCompTrace", evs, meta, shards=6)
    ctx.notes["rule"] = "one component fit; distinct = (component, forced fallback, kind of start)"
    ctx.assumptions += ["results outside the fixed-point range (parameters beyond 100, widths below 0.03) are judged for finiteness, bounds and code only",
                        "recovery is asked of the density fit in its well-conditioned range only"]
