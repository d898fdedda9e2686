"""C11 reproducibility and independence of the random choices (spec/HaloPop*, key discipline)."""
import json, os, subprocess, sys
import numpy as np
import c09, popgen, vf
from vf import fx, h31

def run(ctx):
    import jax
    from jax import random as jr
    from diffmah.diffmah_kernels import get_unbounded_mah_params, DiffmahParams
    from diffmah.diffmahpop_kernels import bimod_censat_params as bcp
    ctx.model("HaloPopModel", c09.CFG % 2, workers=1)
    rng = ctx.rng
    evs, meta = [], []
    nh = 7
    tarr = np.linspace(1, 13.5, 3).astype("f4")
    # ---- key discipline of every generator, as executed (in a process of its own)
    out = os.path.join(ctx.work, "keys.json")
    pr = subprocess.Popen([sys.executable, "-B", os.path.join(vf.VERIF, "lib", "keylog_worker.py"), out,
                           str(ctx.seed), str(1 if ctx.quick else 6)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    # ---- reproducible, and different for different seeds
    for kind, mod, popf, mcf, momf in popgen.kinds():
        P = popgen.pop_params(rng, 5)
        lgm, tob, tpk, lgt0 = popgen.inputs(rng, nh)
        seen = {}
        for s in rng.integers(0, 1 << 30, 6):
            for lab, f in (("pop", lambda k: popf(P, lgm, tob, k, lgt0)), ("given", lambda k: popf(P, lgm, tob, k, lgt0, tpk)),
                           ("hist", lambda k: mcf(P, tarr, lgm, tob, k, lgt0))):
                a = h31([np.asarray(x) for x in jax.tree_util.tree_leaves(f(jr.PRNGKey(int(s))))])
                b = h31([np.asarray(x) for x in jax.tree_util.tree_leaves(f(jr.PRNGKey(int(s))))])
                evs.append(dict(ev="eq", what="same-seed-same-population", a=a, b=b)); meta.append((kind, lab, s))
                for o in seen.get(lab, []):
                    evs.append(dict(ev="ne", what="different-seeds-differ", a=a, b=o)); meta.append((kind, lab, s))
                seen.setdefault(lab, []).append(a)
        # halos alike in everything still differ
        g = popf(P, np.repeat(lgm[:1], 40), np.repeat(tob[:1], 40), jr.PRNGKey(3), lgt0)
        for fam in (g.mah_params_early, g.mah_params_late):
            for nm in DiffmahParams._fields[:4]:
                v = np.asarray(getattr(fam, nm))
                evs.append(dict(ev="ne", what="halos-differ", a=len(set(v.tolist())), b=1)); meta.append((kind, nm))
    # ---- scatter statistics
    n = 4000 if ctx.quick else 20000

    def z(what, val, m):
        evs.append(dict(ev="z", what=what, z=fx(val), lim=6000000)); meta.append(m)
    for kind, mod, popf, mcf, momf in popgen.kinds():
        for rep in range(1 if ctx.quick else 4):
            S = dict(logm0=rng.uniform(0.3, 1), logtc=rng.uniform(0.3, 2), early=rng.uniform(0.3, 2), late=rng.uniform(0.3, 2))
            order = ["logm0", "logtc", "early", "late"]
            R = np.eye(4)
            rep_ = {f"std_u_{k}_{e}": v for k, v in S.items() for e in ("ylo", "yhi")}
            for i in range(4):
                for j in range(i):
                    R[i, j] = R[j, i] = rng.uniform(-0.28, 0.28)
                    rep_[f"rho_{order[i]}_{order[j]}"] = R[i, j]
            for k in bcp.DEFAULT_DIFFMAHPOP_PARAMS._fields:   # early fraction near one half everywhere
                if k.startswith("fec_lgm_y"):
                    rep_[k] = 0.5
            P = popgen.plain(bcp.DEFAULT_DIFFMAHPOP_PARAMS._replace(**rep_))
            tiny = popgen.plain(P._replace(**{k: 1e-4 for k in rep_ if k.startswith("std_u")}))
            lg, to, _, lgt0 = popgen.inputs(rng, 1)
            lgm, tob = np.full(n, np.float32(rng.uniform(12, 13.5))), np.full(n, np.float32(rng.uniform(9, 13)))
            key = jr.PRNGKey(int(rng.integers(1 << 30)))
            g = ctx.must(kind, popf, P, lgm, tob, key, lgt0)
            if g is None:
                return
            tp = np.asarray(g.mah_params.t_peak)
            m = ctx.must(kind, popf, tiny, lgm, tob, jr.PRNGKey(int(rng.integers(1 << 30))), lgt0, tp)
            if m is None:
                return
            sd = np.array([S[k] for k in order])
            W = np.linalg.inv(np.linalg.cholesky(R))
            X = {}
            for fam in ("early", "late"):
                u = np.array(get_unbounded_mah_params(getattr(g, "mah_params_" + fam)), float)[:4].T
                u0 = np.array(get_unbounded_mah_params(getattr(m, "mah_params_" + fam)), float)[:4].T
                X[fam] = ((u - u0) / sd) @ W.T
                for i in range(4):
                    z("scatter-mean-zero", X[fam][:, i].mean() * np.sqrt(n), (kind, fam, order[i], "mean"))
                    for j in range(i + 1):
                        c = (X[fam][:, i] * X[fam][:, j]).mean() - (i == j)
                        z("scatter-covariance", c * np.sqrt(n / (2 if i == j else 1)), (kind, fam, order[i], order[j]))
            cl = (np.asarray(g.mc_early).astype(float) - np.asarray(g.frac_early_cens, float))
            cl = cl / cl.std()
            rk = (np.argsort(np.argsort(tp + rng.uniform(0, 1e-9, n))) + 0.5) / n
            rk = (rk - 0.5) * np.sqrt(12)
            nb = lambda v: (v[:-1] * v[1:]).mean() * np.sqrt(n - 1)
            z("class-vs-peak-time", (cl * rk).mean() * np.sqrt(n), kind)
            z("halo-to-halo class", nb(cl), kind)
            z("halo-to-halo peak time", nb(rk), kind)
            for fam in X:
                for i in range(4):
                    z("class-vs-scatter", (cl * X[fam][:, i]).mean() * np.sqrt(n), (kind, fam, order[i]))
                    z("peak-time-vs-scatter", (rk * X[fam][:, i]).mean() * np.sqrt(n), (kind, fam, order[i]))
                    z("halo-to-halo scatter", nb(X[fam][:, i]), (kind, fam, order[i]))
                    # also at the level of magnitudes (a shared number need not show in the sign)
                    ax = np.abs(X[fam][:, i]); ax = (ax - ax.mean()) / ax.std()
                    z("class-vs-scatter", (cl * ax).mean() * np.sqrt(n), (kind, fam, order[i], "abs"))
                    z("peak-time-vs-scatter", (rk * ax).mean() * np.sqrt(n), (kind, fam, order[i], "abs"))
                    for j in range(4):
                        if fam == "early":
                            z("early-vs-late-scatter", (X["early"][:, i] * X["late"][:, j]).mean() * np.sqrt(n), (kind, order[i], order[j]))
            ctx.count(n, (kind, "stats"))
    # ---- scatter that changes with mass: every halo has its own
    nm, ng = 3600, 5
    pairs = [("logtc", "logm0"), ("early", "logm0"), ("early", "logtc"), ("late", "logm0"), ("late", "logtc"), ("late", "early")]
    for kind, mod, popf, mcf, momf in popgen.kinds():
        for rep in range(2 if ctx.quick else 8):
            v = {}
            for k in order:
                a, b = rng.uniform(0.05, 0.3), rng.uniform(0.8, 1.8)
                v[f"std_u_{k}_ylo"], v[f"std_u_{k}_yhi"] = (a, b) if rng.uniform() < 0.5 else (b, a)
                v[f"cov_lgm_x0_{k}"] = [11.55, rng.uniform(11.6, 13.9), 13.9][int(rng.integers(3))]
            for a, b in pairs:
                v[f"rho_{a}_{b}"] = rng.uniform(-0.28, 0.28)
            v = {k: float(np.float32(x)) for k, x in v.items()}
            P = popgen.plain(bcp.DEFAULT_DIFFMAHPOP_PARAMS._replace(**v))
            tiny = popgen.plain(P._replace(**{k: 1e-4 for k in v if k.startswith("std_u")}))
            _, _, _, lgt0 = popgen.inputs(rng, 1)
            ms = np.append([11.0, 15.0], rng.uniform(11.2, 14.5, ng - 2)).astype("f4")
            g_ix = rng.permutation(np.repeat(np.arange(ng), nm))
            lgm, tob = ms[g_ix], rng.uniform(9, 13, ng * nm).astype("f4")
            g = ctx.must(kind, popf, P, lgm, tob, jr.PRNGKey(int(rng.integers(1 << 30))), lgt0)
            if g is None:
                return
            tp = np.asarray(g.mah_params.t_peak)
            m = ctx.must(kind, popf, tiny, lgm, tob, jr.PRNGKey(int(rng.integers(1 << 30))), lgt0, tp)
            if m is None:
                return
            for fam in ("early", "late"):
                d = [np.array(get_unbounded_mah_params(getattr(x, "mah_params_" + fam)), float)[:4] for x in (g, m)]
                d = d[0] - d[1]
                for q in range(ng):
                    y = d[:, g_ix == q]
                    evs.append(dict(ev="scat", lgm=fx(ms[q]), n=nm, x0=fx([v[f"cov_lgm_x0_{k}"] for k in order]), lo=fx([v[f"std_u_{k}_ylo"] for k in order]),
                                    hi=fx([v[f"std_u_{k}_yhi"] for k in order]), rho=fx([v[f"rho_{a}_{b}"] for a, b in pairs]),
                                    mean=fx(y.mean(axis=1)), mom=[fx(r) for r in (y @ y.T) / nm]))
                    meta.append(dict(kind=kind, family=fam, lgm=ms[q], params=v))
            ctx.count(ng * nm, (kind, "mass-dependent scatter"))
    so, _ = pr.communicate(timeout=1500)
    if pr.returncode or not os.path.exists(out):
        raise vf.MachineryError(f"key log process failed: {so.decode()[-800:]}")
    for r in json.load(open(out)):
        if r["err"]:
            ctx.violation("raises", f"{r['label']}: {r['err']}", r["label"])
            continue
        evs.append(dict(ev="call")); meta.append(r["label"])
        nd = 0
        for tag, what, a0, a1 in r["log"]:
            k = f"{a0:08x}{a1:08x}"
            if tag == "draw":
                nd += 1
                evs.append(dict(ev="draw", key=k, what=what, max=r["max"] if what == "uniform()" else 1))
            else:
                evs.append(dict(ev="split", key=k))
            meta.append((r["label"], tag, what, k))
        ctx.notes.setdefault("draws", {})[r["label"]] = nd
        ctx.count(nd, r["label"])
    ctx.trace("HaloPopTrace", evs, meta)
    ctx.notes["rule"] = "random draws recorded plus halos in the statistics; distinct = generator kinds"
    ctx.assumptions += ["key log taken by wrapping jax.random's samplers; the peak time of a halo may be drawn twice (for its early "
                        "and late version) with the same key", "statistics judged at 6 standard deviations"]
