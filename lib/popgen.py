"""Inputs for the population model shared by C09-C15."""
import numpy as np


def kinds():
    from diffmah.diffmahpop_kernels import mc_bimod_cens as mc, mc_bimod_sats as ms
    return [("cen", mc, mc.mc_diffmah_cenpop, mc.mc_cenpop, mc.predict_mah_moments_singlebin),
            ("sat", ms, ms.mc_diffmah_satpop, ms.mc_satpop, ms.predict_mah_moments_singlebin)]


def pop_params(rng, spread):
    """in-bounds population parameters around the defaults (spread in unbounded units)"""
    from diffmah.diffmahpop_kernels import bimod_censat_params as b
    u = np.array(b.DEFAULT_DIFFMAHPOP_U_PARAMS, float)
    if spread:
        u = u + rng.normal(0, spread, len(u))
    return plain(b.get_diffmahpop_params_from_u_params(b.DiffmahPop_UParams(*[np.float32(x) for x in u])))


def plain(P):
    return type(P)(*[np.float32(x) for x in P])


def bounds():
    import popfam
    return popfam.composite(popfam.leaves()).bounds


def separated(rng, flip):
    """small scatter, families far apart in every scattered parameter"""
    from diffmah.diffmahpop_kernels import bimod_censat_params as b
    P = b.DEFAULT_DIFFMAHPOP_PARAMS
    B = bounds()
    new = {}
    for k in P._fields:
        lo, hi = getattr(B, k)
        if k.startswith("std_u_"):
            new[k] = lo + 0.05
        elif k.startswith("rho_"):
            new[k] = 0.0
        elif k.startswith(("lgm0pop_c0_ytp", "logtc_lgm_c0_tp_ytp_tobs_c0", "early_index_y", "late_index_y")):
            early = "_early" in k or "_alpha" in k
            if "early_index_ylo_x0" in k or "early_index_yhi_x0" in k:
                continue
            f = 0.9 if early else 0.1
            if k.startswith("logtc"):
                f = 1 - f
            new[k] = lo + (hi - lo) * f
    return plain(P._replace(**new))


def steep_fraction(rng, P):
    """early fraction running from one end of its range to the other with mass and with time"""
    B = bounds()
    ends = {}
    up = rng.uniform() < 0.5
    for k in ("fec_lgm_ylo_early", "fec_lgm_ylo_late", "fec_lgm_yhi_early", "fec_lgm_yhi_late"):
        lo, hi = getattr(B, k)
        high = ("_yhi" in k) == up
        if rng.uniform() < 0.3 and k.endswith("late"):
            high = not high
        ends[k] = hi - 0.02 * (hi - lo) if high else lo + 0.02 * (hi - lo)
    ends["fec_lgm_x0"] = rng.uniform(12.3, 13.7)
    ends["fec_t_obs_x0"] = rng.uniform(6.0, 11.0)
    return plain(P._replace(**ends))


def inputs(rng, n, tlo=2.5):
    lgt0 = float(np.log10(13.8)) if rng.uniform() < 0.6 else float(np.log10(rng.uniform(13.4, 14.2)))
    t0 = 10**lgt0
    lgm = rng.uniform(11.0, 15.0, n).astype("f4")
    tob = rng.uniform(tlo, t0 * 0.999, n).astype("f4")
    tpk = (tob * rng.uniform(0.2, 1.0, n)).astype("f4")
    return lgm, tob, tpk, lgt0


def bits(v):
    return np.ascontiguousarray(np.asarray(v, dtype=np.float32)).view(np.int32).tolist()
