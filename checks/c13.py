"""C13 moments of the early/late mixture (spec/PopMoments*)."""
import numpy as np
import popgen
from vf import fx
CFG = """SPECIFICATION Spec
CONSTANT NMax = %d
INVARIANTS Range VarNonNeg Steiner Symmetric OrderFree AllEarly ZeroIffMatch
CHECK_DEADLOCK FALSE
"""


def run(ctx):
    import jax
    from jax import random as jr
    from diffmah.diffmahpop_kernels import bimod_censat_params as bcp
    ctx.model("PopMomentsModel", CFG % (3 if ctx.quick else 4), workers=4)
    rng = ctx.rng
    evs, meta = [], []
    for rep in range(20 if ctx.quick else 150):
        for kind, mod, popf, mcf, momf in popgen.kinds():
            P = popgen.pop_params(rng, [0, 4, 12][rep % 3])
            if rep % 4 == 3:    # early fraction far from one half
                P = popgen.plain(P._replace(**{k: (0.98 if rep % 8 == 3 else 0.03) for k in P._fields if k.startswith("fec_lgm_y")}))
            lgm, tob, _, lgt0 = popgen.inputs(rng, 1, tlo=2.0)
            lgm, tob = lgm[0], tob[0]
            nt = 6
            tarr = np.sort(rng.uniform(0.4, tob, nt)).astype("f4")
            if rep % 5 == 1:
                tarr = rng.permutation(tarr)
            if rep % 5 == 2:
                tarr = np.repeat(tarr[:3], 2)
            key = jr.PRNGKey(int(rng.integers(1 << 30)))
            args = (P, tarr, lgm, tob, key, lgt0)
            r = ctx.must(kind, momf, *args)
            if r is None:
                return
            mean, std = [np.asarray(x, float) for x in r[:2]]
            smp = ctx.must(kind + " sample", mod._mc_diffmah_halo_sample, *args)
            if smp is None:
                return
            E, L, F = np.asarray(smp[2], float), np.asarray(smp[5], float), np.asarray(smp[6], float)
            inp = dict(kind=kind, lgm=lgm, t_obs=tob, tarr=tarr, lgt0=lgt0, key=np.asarray(key), popparams=P)
            for x in r:
                evs.append(dict(ev="len", want=nt, got=int(np.size(x)))); meta.append(inp)
            if mean.shape != (nt,) or std.shape != (nt,):
                continue
            for k in range(nt):
                ref = np.median(np.r_[E[:, k], L[:, k]])
                hs = [dict(e=a, l=b, f=c) for a, b, c in zip(fx(E[:, k] - ref), fx(L[:, k] - ref), fx(F))]
                evs.append(dict(ev="mom", hs=hs, mean=fx(mean[k] - ref), std=fx(std[k])))
                meta.append(dict(inp, time=tarr[k], mean=mean[k], std=std[k]))
                ctx.count(1, (kind, rep, k))
            # other requested times do not matter
            if rep < 3 or rep % 10 == 0:
                for sub in (np.array([2]), rng.permutation(nt)):
                    r2 = ctx.must(kind, momf, P, tarr[sub], lgm, tob, key, lgt0)
                    if r2 is None:
                        return
                    for what, a, b in (("mean-independent-of-other-times", mean, r2[0]), ("scatter-independent-of-other-times", std, r2[1])):
                        evs.append(dict(ev="same", what=what, a=fx(a[sub]), b=fx(np.asarray(b, float).reshape(-1)), t=15))
                        meta.append(dict(inp, sub=sub))
    ctx.trace("PopMomentsTrace", evs, meta, shards=8)
    ctx.notes["rule"] = "one moment at one time; distinct = (halo kind, parameter draw, time)"
    ctx.assumptions += ["the bin's halos are those _mc_diffmah_halo_sample returns for the same seed", "times from 0.4 Gyr to the observation time"]
