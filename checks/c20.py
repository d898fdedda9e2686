"""C20 consistency and recovery of real fits (spec/FitQuality*)."""
import os, pickle, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
import numpy as np
import fitlib, vf
from vf import fx
CFG = "SPECIFICATION Spec\nCONSTANT Tier = %d\nINVARIANTS Symmetric NonNeg ZeroOnlyPerfect Accepts\nCHECK_DEADLOCK FALSE\n"


def problems(rng, n):
    import jax
    from diffmah import mah_singlehalo
    from diffmah.diffmah_kernels import DEFAULT_MAH_PARAMS
    grids = [np.linspace(0.5, 13.8, 100), np.linspace(0.3, 13.8, 40), np.geomspace(0.4, 14.0, 60), np.linspace(1.0, 13.2, 25)]
    out = []
    for i in range(n):
        t = grids[rng.integers(0, 4)]
        early = rng.uniform(1, 5)
        late = rng.uniform(0.1, min(1.5, early))
        p = DEFAULT_MAH_PARAMS._make(np.float32([rng.uniform(10.5, 15), rng.normal(0.05, 0.3), early, late, rng.uniform(1.5, t[-1])]))
        y = np.asarray(mah_singlehalo(p, t.astype("f4"), np.float32(np.log10(t[-1])))[1], float)
        kind = i % 8
        kw = {}
        mah = 10.0**y
        rec = kind in (0, 1, 2, 3)
        adam = kind in (3, 7)
        if kind == 1:
            kw = dict(lgm_min=float(y[-1] - rng.uniform(1, 3)))
        elif kind == 2:
            kw = dict(dlogm_cut=float(rng.uniform(1, 5)), t_fit_min=float(rng.uniform(0, 3)))
        elif kind == 4:
            mah = 10.0 ** (y + rng.normal(0, 0.15, len(t)))
        elif kind == 5:
            mah = mah.copy()
            mah[: rng.integers(1, len(t) // 3)] = 0
            k = rng.integers(len(t) // 2, len(t))
            mah[k:] = mah[k]
        elif kind == 6:
            kw = dict(tpeak_fixed=float(rng.uniform(1, 13)), lgm_min=float(y[-1] - 4))
            mah = 10.0 ** (y + rng.normal(0, 0.05, len(t)))
        elif kind == 7:
            mah = np.maximum.accumulate(10.0 ** (y + rng.normal(0, 0.3, len(t))))
            kw = dict(nstep=int(rng.integers(5, 60)), n_warmup=int(rng.integers(0, 3)))
        out.append(dict(t=t, mah=mah, kw=kw, adam=adam, rec=rec, truth=[float(x) for x in p]))
    return out


def run(ctx):
    ctx.model("FitQualityModel", CFG % (0 if ctx.quick else 1), workers=4)
    rng = ctx.rng
    probs = problems(rng, 168 if ctx.quick else 1600)
    # random realistic histories with random cuts
    R = [fitlib.random_problem(rng, nmax=30) for _ in range(40 if ctx.quick else 400)]
    probs += [dict(t=p["t"], mah=p["mah"], kw=p["kw"], adam=bool(i % 4 == 0), rec=False, truth=None) for i, p in enumerate(R)]
    nw = 7
    # grid sizes together, so that a process compiles few shapes
    order = sorted(range(len(probs)), key=lambda i: (len(probs[i]["t"]), i))
    parts = [order[k * len(order) // nw:(k + 1) * len(order) // nw] for k in range(nw)]
    res = [None] * len(probs)

    def go(k):
        a, b = os.path.join(ctx.work, f"in{k}"), os.path.join(ctx.work, f"out{k}")
        pickle.dump([probs[i] for i in parts[k]], open(a, "wb"))
        e = dict(os.environ, XLA_FLAGS="--xla_cpu_multi_thread_eigen=false", OMP_NUM_THREADS="1")
        r = subprocess.run([sys.executable, os.path.join(vf.VERIF, "lib", "fitworker.py"), a, b], env=e, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True, timeout=850)
        if not os.path.exists(b):
            return k, r.stdout[-800:]
        for i, d in zip(parts[k], pickle.load(open(b, "rb"))):
            res[i] = d
        return k, None
    with ThreadPoolExecutor(nw) as ex:
        for k, err in ex.map(go, range(nw)):
            if err:
                raise vf.MachineryError("fit worker failed: " + err)
    evs, meta = [], []
    good, fb = [], []
    for p, d in zip(probs, res):
        inp = dict(t=p["t"], mah=p["mah"], fallback_forced=p["adam"], truth=p["truth"], **p["kw"])
        if "error" in d:
            ctx.violation("raises", f"diffmah_fitter: {d['error']}", inp)
            continue
        if d["skip"]:
            continue
        m = np.abs(d["dev"]).max() if np.all(np.isfinite(d["dev"])) else 1.0
        sc = 30.0 if m < 0.3 else 1.0 if m < 9 else 0.1 if m < 90 else 1e-3
        inp["result"] = d
        evs.append(dict(ev="fit", d=fx(d["dev"] * sc), loss=fx(d["loss"] * sc * sc), par=fx(d["par"]), lossfx=fx(d["loss"]), start=fx(d["start"])))
        meta.append(inp)
        ctx.count(1, (d["code"], p["rec"], len(d["dev"]), p["adam"]))
        if p["rec"]:
            evs.append(dict(ev="recover", loss=fx(d["loss"]), lim=fx(1.0 if d["code"] else 0.01))); meta.append(inp)
            (good if d["code"] == 0 else fb).append(fx(d["loss"]))
    if len(good) > 15:
        evs.append(dict(ev="median", loss=sorted(good), lim=1000)); meta.append("median loss of recoverable histories")
    if len(fb) > 15:
        evs.append(dict(ev="median", loss=sorted(fb), lim=30000)); meta.append("median loss of recoverable histories, fallback")
        ctx.notes["median_recovery_loss_fallback"] = sorted(fb)[len(fb) // 2] / 1e6
    ctx.trace("FitQualityTrace", evs, meta, shards=3)
    ctx.notes["median_recovery_loss"] = sorted(good)[len(good) // 2] / 1e6 if good else None
    ctx.notes["worst_recovery_loss"] = max(good) / 1e6 if good else None
    ctx.notes["rule"] = "one completed fit; distinct = (algorithm, recoverable, number of targets, forced fallback)"
    ctx.assumptions += ["recovery: mean square deviation at most 0.01 (quasi-Newton, median 0.001) or 1.0 (descent fallback, median 0.03)",
                        "the fallback is forced at the scipy boundary"]
