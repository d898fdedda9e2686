"""C12 covariance of the scattered parameters (spec/PopCov*)."""
import numpy as np
import popgen
from vf import fx
CFG = """SPECIFICATION Spec
CONSTANT Tier = %d
INVARIANTS PD Sym OwnEntry Between
CHECK_DEADLOCK FALSE
"""
P4 = ["logm0", "logtc", "early", "late"]
R6 = ["rho_logtc_logm0", "rho_early_logm0", "rho_early_logtc", "rho_late_logm0", "rho_late_logtc", "rho_late_early"]
TRI = [(1, 0), (2, 0), (2, 1), (3, 0), (3, 1), (3, 2)]


def run(ctx):
    import jax, jax.numpy as jnp
    from diffmah.diffmahpop_kernels import covariance_kernels as ck, bimod_censat_params as bcp
    ctx.model("PopCovModel", CFG % (0 if ctx.quick else 1), workers=4)
    ctx.exhaustive = True
    rng = ctx.rng
    evs, meta = [], []

    def draw(i):
        v = {}
        for k in ck.CovParams._fields:
            lo, hi = getattr(ck.COV_PBOUNDS, k)
            if i == 0:
                v[k] = getattr(ck.DEFAULT_COV_PARAMS, k)
            elif k.startswith("std"):
                v[k] = 10**rng.uniform(-2, 2) if i % 2 else float(rng.choice([lo, hi, 1.0]))
            elif k.startswith("rho"):
                v[k] = rng.uniform(lo, hi) if i % 3 else float(rng.choice([lo, 0.0, hi]))
            else:
                v[k] = rng.uniform(lo, hi)
            v[k] = float(np.float32(v[k]))
        return v

    def split(C):
        C = np.asarray(C, float)
        sd = np.sqrt(np.diagonal(C))
        return sd, C / np.outer(sd, sd)
    n, nm = (150, 6) if ctx.quick else (1500, 12)
    for i in range(n):
        v = draw(i)
        pc = ck.CovParams(**v)
        full = popgen.plain(bcp.DEFAULT_DIFFMAHPOP_PARAMS._replace(**v))
        lgm = rng.uniform(9, 16.5, nm).astype("f4")
        lgm[0] = rng.choice([v["cov_lgm_x0_" + k] for k in P4])
        many = ctx.must("covariance of many masses", getattr(ck, "_get_diffmahpop_cov_vmap", jax.vmap(ck._get_diffmahpop_cov, in_axes=(None, 0))), pc, lgm)
        if many is None:
            return
        for j, m in enumerate(lgm):
            one = ctx.must("covariance", ck._get_diffmahpop_cov, pc, m)
            ful = ctx.must("covariance from the full set", ck._get_diffmahpop_cov, full, m)
            if one is None or ful is None:
                return
            if np.shape(one) != (4, 4) or np.shape(many) != (nm, 4, 4):
                ctx.violation("shape", "covariance shape", dict(one=np.shape(one), many=np.shape(many)))
                return
            A = np.asarray(one) + np.float32(0)
            s1, c1 = split(A); s2, c2 = split(many[j]); s3, c3 = split(ful)
            inp = dict(params=v, lgm=float(m), cov=A)
            evs.append(dict(ev="cov", lgm=fx(m), ylo=[fx(v[f"std_u_{k}_ylo"]) for k in P4], yhi=[fx(v[f"std_u_{k}_yhi"]) for k in P4],
                            x0=[fx(v["cov_lgm_x0_" + k]) for k in P4], rho=[fx(v[k]) for k in R6], sd=fx(s1), corr=fx(c1),
                            sdv=fx(s2), corrv=fx(c2), sdf=fx(s3), corrf=fx(c3)))
            meta.append(inp)
            evs.append(dict(ev="sym", up=popgen.bits([A[b, a] for a, b in TRI]), lo=popgen.bits([A[a, b] for a, b in TRI])))
            meta.append(inp)
            evs.append(dict(ev="chol", ok=bool(np.all(np.isfinite(np.asarray(jnp.linalg.cholesky(one)))))))
            meta.append(inp)
            ctx.count(1, (tuple(np.sign([v[k] for k in R6]).astype(int)), int(m)))
    ctx.trace("PopCovTrace", evs, meta, shards=6)
    ctx.notes["rule"] = "one (parameters, mass) pair; distinct = sign pattern of the correlations and integer mass"
    ctx.assumptions += ["scatters compared to 2e-5 plus the table resolution of the specification's sigmoid"]
