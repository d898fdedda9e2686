"""C09 each halo is wholly early or late (spec/HaloPop, HaloPopModel, HaloPopTrace)."""
import itertools
import numpy as np
import popgen
from vf import fx

CFG = """SPECIFICATION Spec
CONSTANTS NHALO = %d
 SharedKeys = FALSE
INVARIANT Inv
POSTCONDITION Independent
CHECK_DEADLOCK FALSE
"""
bits = popgen.bits


def run(ctx):
    from jax import random as jran
    from diffmah import mah_halopop
    from diffmah.diffmah_kernels import DiffmahParams
    from diffmah.diffmahpop_kernels import param_utils
    ctx.model("HaloPopModel", CFG % 2, workers=1)
    rng = ctx.rng
    evs, meta = [], []
    F = DiffmahParams._fields
    # ---- selection by flag: every flag vector of length 4, bool and integer flags, marker values
    for fl in itertools.product([False, True], repeat=4):
        for kind in (bool, np.int32):
            m = rng.permutation(40).reshape(2, 5, 4).astype("f4")
            f = np.array(fl).astype(kind)
            r = ctx.must("mc_select_diffmah_params", param_utils.mc_select_diffmah_params,
                         DiffmahParams(*m[0]), DiffmahParams(*m[1]), f)
            if r is None:
                return
            if list(r._fields) != list(F):
                ctx.violation("select-by-flag", f"fields {r._fields}", {})
            for q, name in enumerate(F):
                evs.append(dict(ev="sel", flags=list(fl), p1=m[0, q].astype(int).tolist(), p0=m[1, q].astype(int).tolist(),
                                out=np.asarray(getattr(r, name)).astype(int).tolist()))
                meta.append((name, fl))
    # ---- populations with reported class
    reps = 10 if ctx.quick else 60
    for kind, mod, popf, mcf, _ in popgen.kinds():
        tot = {}
        for rep in range(reps):
            P = popgen.pop_params(rng, 0 if rep == 0 else rng.choice([3, 15]))
            if rep % 2:
                P = popgen.steep_fraction(rng, P)
            n = 400
            lgm, tob, tpk, lgt0 = popgen.inputs(rng, n)
            key = jran.PRNGKey(int(rng.integers(1 << 30)))
            args = (P, lgm, tob, key, lgt0) + ((tpk,) if rep % 2 else ())
            g = ctx.must(popf.__name__ if hasattr(popf, "__name__") else kind, popf, *args)
            if g is None:
                return
            A, B, C = [np.array([np.asarray(getattr(p, k)) for k in F]).T for p in (g.mah_params_early, g.mah_params_late, g.mah_params)]
            fl, fec = np.asarray(g.mc_early).astype(bool), np.asarray(g.frac_early_cens, float)
            for i in range(n if rep < 3 else 60):
                evs.append(dict(ev="halo", a=bits(A[i]), b=bits(B[i]), c=bits(C[i]), flag=bool(fl[i])))
                meta.append(dict(kind=kind, early=A[i], late=B[i], got=C[i], flag=fl[i]))
            # share within strata of the fraction: each halo is drawn with its own
            for q in range(4):
                grp = np.where(np.clip(((fec - 0.2) / 0.15).astype(int), 0, 3) == q)[0]
                if len(grp) == 0:
                    continue
                c, m, v = tot.get(q, (0, 0.0, 0.0))
                tot[q] = (c + int(fl[grp].sum()), m + fec[grp].sum(), v + (fec[grp] * (1 - fec[grp])).sum())
            ctx.count(n, *[(kind, bool(f), int(x // 0.5)) for f, x in zip(fl[:60], lgm)])
        # one fraction at a time: all halos alike
        for rep in range(3):
            P = popgen.pop_params(rng, 25)
            n = 3000
            lg, to, _, lgt0 = popgen.inputs(rng, 1)
            g = ctx.must(kind, popf, P, np.repeat(lg, n), np.repeat(to, n), jran.PRNGKey(int(rng.integers(1 << 30))), lgt0, np.repeat(to, n))
            if g is None:
                return
            fec = float(np.asarray(g.frac_early_cens)[0])
            evs.append(dict(ev="share", n=n, count=int(np.asarray(g.mc_early).sum()), mean=int(round(1000 * n * fec)),
                            var=int(1000 * n * fec * (1 - fec))))
            meta.append((kind, "uniform population", fec))
        for q, (c, m, v) in tot.items():
            evs.append(dict(ev="share", n=0, count=c, mean=int(round(1000 * m)), var=int(1000 * v))); meta.append((kind, "stratum", q, c, m))
        # ---- populations with histories: class read off each quantity of well separated families
        mctot = {}
        for rep in range(4 if ctx.quick else 20):
            Ps = popgen.steep_fraction(rng, popgen.separated(rng, rep % 2))
            n = 300
            lgm, tob, tpk, lgt0 = popgen.inputs(rng, n)
            tarr = np.sort(rng.uniform(1.0, 10**lgt0, 5)).astype("f4")
            key = jran.PRNGKey(int(rng.integers(1 << 30)))
            g = ctx.must(kind, mcf, Ps, tarr, lgm, tob, key, lgt0)
            if g is None:
                return
            C = np.array([np.asarray(getattr(g.mah_params, k)) for k in F]).T
            ref = ctx.must(kind, popf, Ps, lgm, tob, key, lgt0, C[:, 4])   # same peak times
            if ref is None:
                return
            A, B = [np.array([np.asarray(getattr(p, k)) for k in F]).T for p in (ref.mah_params_early, ref.mah_params_late)]
            d, y = np.asarray(g.dmhdt), np.asarray(g.log_mah)
            d2, y2 = [np.asarray(x) for x in mah_halopop(g.mah_params, tarr, lgt0)]
            cnt, mean, var = 0, 0.0, 0.0
            fec = np.asarray(ref.frac_early_cens, float)
            for i in range(n):
                da, db = np.abs(C[i, :4] - A[i, :4]), np.abs(C[i, :4] - B[i, :4])
                sep = np.abs(A[i, :4] - B[i, :4])
                use = sep > np.array([0.15, 0.1, 0.3, 0.05])
                side = [int(x < z) for x, z, u in zip(da, db, use) if u]
                if len(side) >= 2:
                    evs.append(dict(ev="cls", side=side)); meta.append(dict(kind=kind, got=C[i], early=A[i], late=B[i]))
                    cnt += side[1]
                    mean += fec[i]
                    var += fec[i] * (1 - fec[i])
                    q = int(np.clip((fec[i] - 0.2) / 0.15, 0, 3))
                    c, m, v = mctot.get(q, (0, 0.0, 0.0))
                    mctot[q] = (c + side[1], m + fec[i], v + fec[i] * (1 - fec[i]))
                evs.append(dict(ev="near", what="history-of-own-parameters", a=fx(y[i]), b=fx(y2[i]), t=20))
                meta.append(dict(kind=kind, params=C[i], t=tarr, log_mah=y[i], expected=y2[i]))
                sc = 10.0 ** (9 - np.maximum(y2[i], -20))
                evs.append(dict(ev="near", what="rate-of-own-parameters", a=fx(d[i] * sc), b=fx(d2[i] * sc), t=60))
                meta.append(dict(kind=kind, params=C[i], t=tarr, rate=d[i], expected=d2[i]))
            ctx.count(n, (kind, "mc"))
            ctx.notes[f"classified_{kind}_{rep}"] = int(var > 0 and round(mean))
            if var > 5:
                evs.append(dict(ev="share", n=0, count=cnt, mean=int(round(1000 * mean)), var=int(1000 * var)))
                meta.append((kind, "mc", cnt, mean))
        for q, (c, m, v) in mctot.items():
            if v > 5:
                evs.append(dict(ev="share", n=0, count=c, mean=int(round(1000 * m)), var=int(1000 * v))); meta.append((kind, "mc stratum", q, c, m))
    ctx.trace("HaloPopTrace", evs, meta, shards=4)
    ctx.notes["rule"] = "one generated halo; distinct = (kind, class, half-dex of mass)"
    ctx.assumptions += ["class of mc_cenpop/mc_satpop halos read off parameter sets with well separated families",
                        "share of early halos judged at 6 standard deviations"]
