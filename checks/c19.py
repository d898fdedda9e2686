"""C19 optimiser state machine (spec/Optim*): every fault sequence of the model replayed."""
import re
from types import SimpleNamespace
import numpy as np
from vf import fx
CFG = """SPECIFICATION Spec
CONSTANTS Tier = %d
 Losses = %d
INVARIANTS Bounded ExactSteps BestOfPhase FlagMeans FlagBad SentinelOnlyWithoutSteps Decision Emit
PROPERTY Finishes
CHECK_DEADLOCK FALSE
"""


def run(ctx):
    import jax.numpy as jnp
    from diffmah.fitting_helpers import fit_utils, bfgs_wrapper
    rng = ctx.rng
    out = ctx.model("OptimModel", CFG % ((0, 2) if ctx.quick else (0, 3)), workers=1, timeout=850)
    beh = [(int(a), int(b), int(c), int(t), [int(x) for x in h.split(",") if x.strip()])
           for a, b, c, t, h in re.findall(r'<<"B", (\d+), (\d+), (\d+), (\d+), <<([^>]*)>>>>', re.sub(r"\s+", " ", out))]
    ctx.notes["behaviours"] = len(beh)
    assert beh
    evs, meta = [], []
    EV = []

    unit = [1.0]     # losses of a behaviour are in this unit: the state machine does not depend on it

    def enc(x):
        return fx(float(x)) if abs(float(x) - 999.99) < 1e-2 else fx(float(x) / unit[0])

    def script(hist, tol, sign, log, info):
        """loss function playing back a behaviour"""
        it = iter(hist)
        scale = float(rng.choice([1.0, 0.01, 300.0]))

        def f(p, data):
            k = next(it, None)
            loss, g = 3.0, np.array(sign, "f4") * np.float32(scale)
            if k is None:
                loss = float(rng.choice([7.0, 1.5]))
            elif k > 0:
                loss = float(k)
            elif k == 0:
                loss = -1.0 if tol == 0 else tol / unit[0] / 2
            else:
                m = rng.integers(0, 6)
                if m < 3:
                    loss = (float("nan"), float("inf"), -float("inf"))[m]
                else:
                    loss = float(rng.choice([0.8, 5.0]))
                    g[rng.integers(0, len(g))] = (np.nan, np.inf, -np.inf)[m - 3]
            loss *= unit[0]
            log.append(dict(ev="eval", p=fx(np.asarray(p, float)), loss=enc(loss), gradok=bool(np.all(np.isfinite(g)))))
            info.append((k, loss, g.tolist()))
            return (jnp.float32(loss), jnp.asarray(g)) if rng.uniform() < 0.7 else (np.float32(loss), g)
        return f
    sel = beh if len(beh) <= (1200 if ctx.quick else 15000) else [beh[i] for i in rng.permutation(len(beh))[: 1200 if ctx.quick else 15000]]
    blocks = []

    def descent(nw, W, N, tol, hist, p0, eta=0.01, weta=None, name="jax_adam_wrapper"):
        npar = len(p0)
        sign = [int(x) for x in rng.choice([-1, 1], npar)]
        log, info = [], []
        f = script(hist, tol, sign, log, info)
        kw = dict(n_warmup=nw, warmup_n_step=W, tol=tol)
        if eta != 0.01 or rng.uniform() < 0.5:
            kw["step_size"] = eta
        if weta is not None:
            kw["warmup_step_size"] = weta
        w = 5 * eta if weta is None else weta
        b = dict(ev="begin", cfg=dict(nwarm=nw, W=W, N=N, tol=enc(tol), eta=fx(eta), weta=fx(w)), p0=fx(np.asarray(p0, float)), sign=sign)
        s, r = ctx.call(fit_utils.jax_adam_wrapper, f, p0, ("data",), N, **kw)
        inp = dict(cfg=b["cfg"], p0=np.asarray(p0, float), script=hist, evaluations=info)
        if s == "raise":
            e = dict(ev="raise")
            inp["error"] = r
        else:
            p, loss, la, pa, flag = r
            e = dict(ev="ret", p=fx(np.asarray(p, float)), loss=enc(loss), losses=[enc(x) for x in la],
                     rows=[fx(np.asarray(x, float)) for x in pa], flag=int(flag))
        blocks.append([b, *log, e])
        meta.append(inp)
        ctx.count(1, (nw, W, N, tuple(hist)))
    for nw, W, N, tol, hist in sel:
        p0 = rng.uniform(-3, 3, int(rng.integers(1, 5)))
        p0 = p0.astype("f4")
        unit[0] = float(rng.choice([1.0, 1e-9, 1e4 if tol == 0 else 1.0]))
        descent(nw, W, N, tol / 1e6 * unit[0], hist, p0, eta=float(rng.choice([0.01, 0.01, 0.05])), weta=None if rng.uniform() < 0.7 else 0.02)
    unit[0] = 1.0
    # non-finite starting points
    for _ in range(20):
        p0 = np.array([1.0, np.nan if rng.uniform() < 0.5 else np.inf, 2.0], "f4")
        descent(int(rng.integers(0, 3)), 2, int(rng.integers(1, 4)), 0.0, [1] * 12, p0)
    # long runs with default warm-up length: exact number of steps, faults late in the run
    for rep in range(8 if ctx.quick else 60):
        nw, N = int(rng.integers(0, 3)), int(rng.integers(1, 90))
        tot = nw * 50 + N
        hist = rng.integers(1, 4, tot).tolist()
        if rep % 2:
            hist[int(rng.integers(0, tot))] = -1
        if rep % 4 == 2:
            hist[int(rng.integers(0, tot))] = 0
        descent(nw, 50, N, 0.5, hist, rng.uniform(-1, 1, 3).astype("f4"))
    # ---- two stages: all quasi-Newton outcomes, patched at the scipy boundary
    import scipy.optimize
    real = scipy.optimize.minimize
    seen = {}

    from fitlib import swap

    def two_stage(fake, hist, nw, N, wrap=None):
        p0 = rng.uniform(-2, 2, 3).astype("f4")
        sign = [int(x) for x in rng.choice([-1, 1], 3)]
        log, info = [], []
        f0 = script(hist, 0.0, sign, log, info)
        stage = {"bfgs": False}

        def f(p, data):
            if stage["bfgs"]:
                return wrap(p)
            return f0(p, data)

        def fn(fun, x0, *a, **k):
            stage["bfgs"] = True
            try:
                r = fake(np.asarray(x0, float)) if fake else real(fun, x0, *a, **k)
            finally:
                stage["bfgs"] = False
            seen["r"], seen["x0"] = r, np.asarray(x0, float)
            return r
        seen.clear()
        swap(real, fn)
        try:
            s, r = ctx.call(bfgs_wrapper.bfgs_adam_fallback, f, p0, ("data",), N, nw)
        finally:
            swap(fn, real)
        inp = dict(p0=p0, bfgs=str(seen.get("r")), nstep=N, n_warmup=nw, script=hist[:20])
        if s == "raise" or "r" not in seen:
            blocks.append([dict(ev="raise")]); meta.append(dict(inp, error=str(r)))
            return
        b = seen["r"]
        blk = [dict(ev="bfgs", success=bool(b.success), loss=fx(float(b.fun)), p=fx(np.asarray(b.x, float)), start=fx(seen["x0"]), p0=fx(p0.astype(float)))]
        if log:
            blk += [dict(ev="begin", cfg=dict(nwarm=nw, W=50, N=N, tol=0, eta=10000, weta=50000), p0=fx(p0.astype(float)), sign=sign), *log]
        p, loss, term, code = r
        blk.append(dict(ev="used", code=int(code), p=fx(np.asarray(p, float)), loss=fx(float(loss)), term=bool(term), evals=len(log)))
        blocks.append(blk); meta.append(inp)
        ctx.count(1, ("two", bool(b.success), fx(float(b.fun)), nw, N))
    for success in (True, False):
        for fun in (float("nan"), float("inf"), -float("inf"), -1.0, 0.0, 1e-6, 1.0, 1500.0):
            for nw, N in ((0, 3), (1, 2), (2, 1)):
                x = rng.uniform(-5, 5, 3)
                h = rng.integers(1, 4, nw * 50 + N).tolist()
                if rng.uniform() < 0.3:
                    h[int(rng.integers(0, len(h)))] = -1
                two_stage(lambda x0, x=x, fun=fun, s=success: SimpleNamespace(x=x, fun=fun, success=s, message="scripted"), h, nw, N)
    # real first stage: a quadratic it solves, constants, non-finite losses
    for kind in ("quad", "nan", "flat", "neg", "zero"):
        def wrap(p, kind=kind):
            p = np.asarray(p, float)
            if kind == "quad":
                return jnp.float32(((p - 0.3) ** 2).sum() + 0.25), jnp.asarray(2 * (p - 0.3))
            if kind == "nan":
                return jnp.float32(np.nan), jnp.asarray(p * np.nan)
            if kind == "neg":
                return jnp.float32(((p - 0.3) ** 2).sum() - 4), jnp.asarray(2 * (p - 0.3))
            if kind == "zero":
                return jnp.float32(0.0), jnp.asarray(p * 0)
            return jnp.float32(2.0), jnp.asarray(p * 0)
        two_stage(None, rng.integers(1, 4, 60).tolist(), 1, 4, wrap)
    for blk in blocks:
        evs += blk
    m2 = [m for blk, m in zip(blocks, meta) for _ in blk]
    starts = set(np.cumsum([0] + [len(b) for b in blocks[:-1]]).tolist())
    ids = {id(e): i for i, e in enumerate(evs)}
    ctx.trace("OptimTrace", evs, m2, shards=ctx.blocks(evs, lambda e: ids[id(e)] in starts, 6))
    ctx.exhaustive = True
    ctx.notes["rule"] = "one run of the descent or of both stages; distinct = (warm-ups, steps, outcome sequence)"
    ctx.assumptions += ["the loss function is scripted with constant-sign gradients, for which an Adam step has exactly the step size"]
