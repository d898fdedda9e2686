"""C30 gradients of the losses (spec/Grad*): every loss against central differences of itself, in double precision."""
import contextlib, importlib, warnings
from concurrent.futures import ThreadPoolExecutor
import numpy as np
import dm, popgen
from vf import fx
CFG = """SPECIFICATION Spec
CONSTANTS D = %d
 K = %d
 M = 1
 T = 1
INVARIANTS Exact Accepted Convex Stationary Refused Short Permuted Margin
PROPERTY Descends
CHECK_DEADLOCK FALSE
"""
K = "diffmah.diffmahpop_kernels."


def run(ctx):
    import jax
    from jax import random as jr
    warnings.simplefilter("ignore")
    ctx.model("GradModel", CFG % ((2, 2) if ctx.quick else (2, 3)), workers=4)
    if not ctx.quick:
        ctx.model("GradModel", CFG % (3, 2), workers=4)
    rng = ctx.rng
    evs, meta = [], []

    def add(m, **e):
        evs.append(e); meta.append(m)

    def dtype(x64):
        return np.float64 if x64 else np.float32

    def prec(x64):
        return dm.x64() if x64 else contextlib.nullcontext()

    def cast(p, x64):
        f = dtype(x64)
        return type(p)(*[f(x) for x in p])

    def ev(f, *a):
        return float(np.asarray(f(*a)))

    def names_of(x):
        return list(getattr(x, "_fields", [str(i) for i in range(len(x))]))

    def probe(name, lossf, gradf, p, data, h, inp, coords=None, tol=2000, f32=None, steps=None):
        """gradient of one loss at one point; h: step per parameter (list)"""
        inp = dict(inp, loss=name, params={k: float(v) for k, v in zip(names_of(p), p)})
        with dm.x64():
            d64 = data(True)
            p64 = cast(p, True)
            r = ctx.must(name + " with gradient", gradf, p64, *d64, timeout=300)
            L = ctx.must(name, lossf, p64, *d64, timeout=300)
            if r is None or L is None:
                return None
            try:
                V, g = r
                V, L = float(V), float(L)
                gl = [float(np.asarray(x)) for x in g]
            except Exception as e:
                ctx.violation("shape", f"{name}: result is not (value, gradient per parameter): {type(e).__name__}", inp)
                return None
            add(inp, ev="names", got=names_of(g), want=names_of(p))
            add(inp, ev="finite", xs=fx([np.sign(x) if np.isfinite(x) else x for x in [V, L, *gl]]))
            add(inp, ev="nonneg", got=fx(min(L, 1.0)))
            u = 10.0 ** np.ceil(np.log10(max(abs(L), 1e-12)))
            add(inp, ev="value", a=fx(L / u), b=fx(V / u), t=2)
            n = len(p)
            ix = list(range(n)) if coords is None else sorted(int(i) for i in rng.choice(n, min(n, coords), replace=False))
            if len(gl) != n:
                return None
            def diffs(i, s0):
                d = []
                for s in (s0, s0 / 2):
                    q = [type(p64)(*[p64[j] + (sg * s if j == i else 0.0) for j in range(n)]) for sg in (1, -1)]
                    d.append((ev(lossf, q[0], *d64) - ev(lossf, q[1], *d64)) / (2 * s))
                return d
            r = ctx.must(name, lambda: [diffs(i, h[i]) for i in ix], timeout=600)
            if r is None:
                return None
            S = max([abs(x[1]) for x in r if np.isfinite(x[1])] + [1e-9 * max(abs(L), 1e-9) / max(h)])
            lim = lambda x: x if not np.isfinite(x) else float(np.clip(x / S, -900, 900))
            for j, i in enumerate(ix):      # a kink of the loss may lie within the step: look closer
                for z in (10, 100):
                    if abs(lim(gl[i]) - lim(r[j][1])) > 0.5e-6 * tol:
                        r[j] = diffs(i, h[i] / z)
            d1, d2 = [x[0] for x in r], [x[1] for x in r]
            add(dict(inp, coords=ix, g=[gl[i] for i in ix], d=d2), ev="grad", g=fx([lim(gl[i]) for i in ix]), d1=fx([lim(x) for x in d1]),
                d2=fx([lim(x) for x in d2]), tol=tol)
            ctx.count(1 + 4 * len(ix), (name, len(evs)))
        if f32 is not None:
            r = ctx.must(name + " with gradient (single precision)", gradf, cast(p, False), *data(False), timeout=300)
            L32 = ctx.must(name + " (single precision)", lossf, cast(p, False), *data(False), timeout=300)
            if r is None or L32 is None:
                return None
            g32 = [float(np.asarray(x)) for x in r[1]]
            V32, L32 = float(r[0]), float(L32)
            add(inp, ev="names", got=names_of(r[1]), want=names_of(p))
            add(inp, ev="finite", xs=fx([np.sign(x) if np.isfinite(x) else x for x in [V32, L32, *g32]]))
            u = 10.0 ** np.ceil(np.log10(max(abs(L32), 1e-6)))
            add(inp, ev="value", a=fx(L32 / u), b=fx(V32 / u), t=30)
            if f32 and len(g32) == n:     # deterministic loss: same gradient as in double precision
                S = max([abs(x) for x in gl] + [f32])
                add(dict(inp, g32=g32, g64=gl), ev="agree", a=fx([x / S for x in g32]), b=fx([x / S for x in gl]), t=5000)
            ctx.count(2)
        return gl

    def far(name, gradf, cls, u, data, r=None):
        """unbounded parameters are all in domain: value and gradient stay finite far out"""
        r = float(rng.choice([25.0, 300.0, 2000.0])) if r is None else r
        u = np.where(rng.uniform(size=len(u)) < rng.choice([0.1, 0.5]), rng.choice([-r, r], len(u)), u)
        q = cls(*[np.float32(x) for x in u])
        o = ctx.must(name + " far out", gradf, q, *data, timeout=300)
        if o is not None:
            xs = [float(o[0]), *[float(np.asarray(z)) for z in o[1]]]
            add(dict(loss=name, params=[float(x) for x in q], result=xs), ev="finite", xs=fx([np.sign(x) if np.isfinite(x) else x for x in xs]))
            ctx.count(1)
    # ------------------------------------------------------------- population losses (compiled in the background)
    bc, bs, bcs = (importlib.import_module(K + m) for m in ("bimod_cens_fithelp", "bimod_sats_fithelp", "bimod_censat_fithelp"))
    bp = importlib.import_module(K + "bimod_censat_params")
    U, P0 = bp.DEFAULT_DIFFMAHPOP_U_PARAMS, bp.DEFAULT_DIFFMAHPOP_PARAMS
    B = popgen.bounds()
    nb, nt = 2, 3

    def bins():
        lgm, tob, _, lgt0 = popgen.inputs(rng, nb, tlo=3.0)
        tm = np.sort(rng.uniform(0.8, 1, (nb, nt)) * np.linspace(0.3, 1, nt) * tob[:, None], axis=1)
        if rng.uniform() < 0.4:
            tm[:, -1] = tob
        tg = (lgm[:, None] - rng.uniform(0, 2, (nb, nt)), rng.uniform(0.05, 0.8, (nb, nt)), rng.uniform(0, 1, (nb, nt)))
        return (tm, lgm, tob), tg, lgt0

    def popdata(kind, seed):
        (a, tg, lgt0), (a2, tg2, _) = bins(), bins()

        def data(x64):
            key = jr.PRNGKey(seed)
            f = lambda *xs: tuple(np.asarray(x, dtype(x64)) for x in xs)
            one = (*f(*a), key, lgt0, *f(*tg))
            if kind == "one":
                return one
            if kind == "one-u":
                return (one,)
            two = (*f(*a), *f(*a2), key, lgt0, *f(*tg), *f(*tg2))
            return two if kind == "two" else (two,)
        return data
    L = "loss_and_grads_mah_moments_multibin"
    pops = [("cens u", bc.loss_mah_moments_multibin_u_params if hasattr(bc, "loss_mah_moments_multibin_u_params") else None, getattr(bc, L), "u", "one-u"),
            ("sats", bs.loss_mah_moments_multibin, getattr(bs, L), "p", "one"),
            ("joint", bcs.loss_mah_moments_multibin_censat, getattr(bcs, L + "_censat"), "p", "two"),
            ("joint u", bcs.loss_mah_moments_multibin_censat_u_params, getattr(bcs, L + "_censat_u_params"), "u", "two-u")]
    pops = [p for p in pops if p[1] is not None]

    def warm(job):
        """compile only: results and errors are looked at later, in the main thread"""
        (name, lossf, gradf, space, kind), x64, data = job
        try:
            with prec(x64):
                p = cast(U if space == "u" else P0, x64)
                gradf(p, *data(x64))
                if x64 or space == "u":
                    lossf(p, *data(x64))
        except BaseException:
            pass
    ex = ThreadPoolExecutor(8)
    wd = {k: popdata(k, 1) for k in ("one", "one-u", "two", "two-u")}
    jobs = [(p, x64, wd[p[4]]) for x64 in (True, False) for p in pops[::-1] if x64 or not ctx.quick or p[0] != "joint"]
    futs = [ex.submit(warm, j) for j in jobs]
    # ---------------------------------------------------------------------------------------- single-halo loss
    from diffmah.diffmah_kernels import DEFAULT_MAH_PARAMS, mah_singlehalo, get_unbounded_mah_params, DiffmahParams
    import diffmah.fitting_helpers.diffmah_fitter_helpers as fh
    for rep in range(14 if ctx.quick else 300):
        n = int([7, 12, 30][rep % 3])
        row = dm.halos(rng, 1, edge=rep % 2 == 0, tpk_max=13.0)[0]
        row[0] = np.clip(row[0], 10, 16)
        row[4] = max(row[4], 1.0)
        t = np.sort(rng.uniform(0.5, 13.8, n)); t[-1] = 13.8
        with dm.x64():
            mah = 10 ** (np.asarray(ctx.must("mah_singlehalo", mah_singlehalo, DiffmahParams(*row), t, np.log10(13.8))[1], float) + rng.normal(0, 0.1 * (rep % 4 > 0), n))
        r = ctx.must("get_loss_data", fh.get_loss_data, t, mah)
        if r is None:
            return
        u0, ld, skip = r
        if skip or not hasattr(fh, "log_mah_loss_uparams"):
            continue
        u = type(u0)(*[float(x) + rng.normal(0, [0.0, 3.0, 15.0][rep % 3]) for x in u0])
        f64 = [np.asarray(x, float) for x in ld]
        data = lambda x64, c=type(ld): (c(*[np.asarray(x, dtype(x64)) if np.ndim(x) else dtype(x64)(x) for x in f64]),)
        probe("halo fit", fh.log_mah_loss_uparams, fh.loss_and_grads_kern, u, data, [0.05] * 4, dict(t=t, mah=mah), f32=1e-3)
        far("halo fit", fh.loss_and_grads_kern, type(u), list(u), data(False))
    # ---------------------------------------------------------------------------------------- component losses
    def lgmt(n):
        lgm = rng.uniform(10.5, 15.5, n)
        tob = rng.uniform(2.5, 13.8, n)
        return lgm, tob, tob * rng.uniform(0.2, 1, n)
    reps = 2 if ctx.quick else 25
    for modn, cls, ucls, bnd, tgt in [(f"early_index_{k}", "EarlyIndex_Params", "EarlyIndex_UParams", "EARLY_INDEX_PBOUNDS", (1.0, 5.0)) for k in ("alpha", "beta", "pop")] \
            + [(f"logtc_{k}", "Logtc_Params", "Logtc_UParams", "LOGTC_PBOUNDS", (-0.5, 0.8)) for k in ("early", "late")]:
        m = importlib.import_module(K + modn)
        if not hasattr(m, "_loss_kern"):
            continue
        for rep in range(reps):
            v = [lo + (hi - lo) * rng.uniform(0.05, 0.95) for lo, hi in getattr(m, bnd)]
            get_u = m.get_unbounded_early_index_params if "early" in cls.lower() else m.get_unbounded_logtc_params
            u = getattr(m, ucls)(*[float(x) for x in get_u(getattr(m, cls)(*[np.float32(x) for x in v]))])
            a = lgmt(9)
            d = (*a, rng.uniform(*tgt, 9))
            probe(modn, m._loss_kern, m.loss_and_grads_kern, u, lambda x64, d=d: (tuple(x.astype(dtype(x64)) for x in d),), [0.02] * len(u), dict(data=d), f32=1e-4)
            far(modn, m.loss_and_grads_kern, type(u), list(u), (tuple(x.astype("f4") for x in d),))
    for fam in ("bimod_logm0_kernels", "bimod_logm0_sats"):
        for c in ("c0", "c1"):
            for w in ("early", "late"):
                m = importlib.import_module(f"{K}{fam}.logm0_{c}_{w}")
                pc = getattr(m, f"LGM0Pop_{c.upper()}_Params")
                bd = getattr(m, f"LGM0POP_{c.upper()}_BOUNDS")
                for rep in range(reps):
                    p = pc(*[float(lo + (hi - lo) * rng.uniform(0.1, 0.9)) for lo, hi in bd])
                    d = []
                    for _ in range(2):
                        lgm, tob, tpk = lgmt(5)
                        d.append((tob, tpk, rng.uniform(-0.5, 0.5, 5) + (float(np.mean([b for b in bd[0]])) if c == "c0" else 0.05)))
                    probe(f"{fam}.{c}_{w}", m.global_loss_kern, m.global_loss_and_grads_kern, p,
                          lambda x64, d=d: ([tuple(np.asarray(x, dtype(x64)) for x in r) for r in d],),
                          [1e-4 * (hi - lo) for lo, hi in bd], dict(data=d), f32=1e-3)
    T = K + "t_peak_kernels."
    for modn in ("utp_pdf_kernels", "tp_pdf_cens"):
        m, mu = importlib.import_module(T + modn), importlib.import_module(T + "utp_pdf_kernels")
        for rep in range(reps + 1):
            v = [lo + (hi - lo) * rng.uniform(0.1, 0.9) for lo, hi in mu.UTP_PBOUNDS]
            u = mu.UTP_UParams(*[float(x) for x in mu.get_unbounded_utp_params(mu.UTP_Params(*[np.float32(x) for x in v]))])
            x, y = np.sort(rng.uniform(0.1, 0.95, 8)), rng.uniform(0, 3, 8)
            t0 = float(rng.uniform(5, 13.8))
            d = (x, y) if modn == "utp_pdf_kernels" else (x * t0, y, np.float64(t0))
            probe(modn, m._loss_kern, m.loss_and_grads_kern, u, lambda x64, d=d: (tuple(np.asarray(z, dtype(x64)) for z in d),), [0.02] * 2,
                  dict(data=d), f32=1e-3)
    m = importlib.import_module(T + "tp_pdf_cens_flex")
    for rep in range(reps + 1):
        p = m.TPCens_Params(*[lo + (hi - lo) * rng.uniform(0.05, 0.95) for lo, hi in m.TPCENS_PBOUNDS])
        nm, nu = 3, 6
        lgm, tob, _ = lgmt(nm)
        d = (np.sort(rng.uniform(0.2, 1, (nm, nu)), axis=1), rng.uniform(-0.4, 1.4, (nm, nu)), lgm, tob)
        # mean absolute error: keep the data away from the predictions, where it has no slope
        d[1][:] = np.where(rng.uniform(size=(nm, nu)) < 0.5, -0.3, 1.3)
        probe("tp_pdf_cens_flex", m.loss_multimass, m.loss_and_grad_multimass, p, lambda x64, d=d: (tuple(z.astype(dtype(x64)) for z in d),),
              [1e-4 * (hi - lo) for lo, hi in m.TPCENS_PBOUNDS], dict(data=d), f32=1e-3)
    # --------------------------------------------------------------------------------------- population losses
    for f in futs:
        f.result()
    for rep in range(2 if ctx.quick else 16):
        for name, lossf, gradf, space, kind in pops:
            sp = [1.0, 6.0, 3.0][rep % 3]
            if space == "u":
                p = type(U)(*[float(x) + rng.normal(0, sp) for x in U])
                h = [2e-3] * len(p)
            else:
                q = bp.get_diffmahpop_params_from_u_params(type(U)(*[np.float32(x + rng.normal(0, sp)) for x in U]))
                p = type(P0)(*[float(np.clip(x, lo + 0.01 * (hi - lo), hi - 0.01 * (hi - lo))) for x, (lo, hi) in zip(q, (getattr(B, k) for k in P0._fields))])
                h = [5e-5 * (hi - lo) for lo, hi in (getattr(B, k) for k in P0._fields)]
            seed = int(rng.integers(1 << 30))
            probe("population " + name, lossf, gradf, p, popdata(kind, seed), h, dict(seed=seed), coords=None if name != "sats" or not ctx.quick else 60,
                  f32=0 if (rep == 0 or not ctx.quick) and (name != "joint" or not ctx.quick) else None)
            # single precision, at corners of the domain
            if space == "u":
                for c in range(4 if ctx.quick else 12):
                    far(name, gradf, type(U), np.array(U, float), popdata(kind, seed + c)(False), [25.0, 80.0, 2000.0][c % 3])
    ctx.trace("GradTrace", evs, meta, shards=3)
    ctx.notes["rule"] = "one evaluation of a loss; distinct = (loss, point)"
    ctx.assumptions += ["entries judged against central differences in double precision, relative to the largest entry of the same gradient (2e-3)",
                        "mean-absolute-error loss judged away from its kinks"]
