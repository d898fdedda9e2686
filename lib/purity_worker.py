"""Plays TLC-generated call behaviours on real operations in its own process and records the trace."""
import json, os, sys, tempfile, shutil
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import numpy as np
import vf
vf.setup_repo()
import warnings
warnings.simplefilter("ignore")
import jax
from jax import random as jran


def freeze(o):
    """argument/result structure -> hashable bytes via vf.h31 (arrays by content, shape and dtype)"""
    return vf.h31(_norm(o))


def _norm(o):
    if isinstance(o, (tuple, list, dict, str, int, float, bool, type(None))):
        if isinstance(o, dict):
            return {k: _norm(v) for k, v in o.items()}
        if isinstance(o, (tuple, list)):
            nm = getattr(o, "_fields", None)
            return ("nt:" + ",".join(nm) if nm else type(o).__name__, [_norm(v) for v in o])
        return o
    if callable(o):
        return "fn"
    return np.asarray(o)


def package_constants():
    mods = [m for n, m in sorted(sys.modules.items()) if n.split(".")[0] == "diffmah" and m is not None
            and ".tests" not in n]
    out = []
    for m in mods:
        for k in sorted(vars(m)):
            v = vars(m)[k]
            if k.startswith("__") or callable(v) or k != k.upper() and not isinstance(v, (dict, np.ndarray, float)):
                continue
            if isinstance(v, (tuple, dict, list, np.ndarray, int, float, str)) or hasattr(v, "dtype"):
                out.append((m.__name__ + "." + k, v))
    return out


def refill(dst, src):
    """put src's contents into dst's array objects in place where possible; returns the object to use"""
    if isinstance(dst, np.ndarray) and isinstance(src, np.ndarray) and dst.shape == src.shape and dst.dtype == src.dtype:
        np.copyto(dst, src)
        return dst
    if isinstance(dst, list) and isinstance(src, list):
        dst[:] = src
        return dst
    if isinstance(dst, dict) and isinstance(src, dict):
        dst.clear()
        dst.update(src)
        return dst
    if isinstance(dst, tuple) and isinstance(src, tuple) and len(dst) == len(src):
        v = [refill(a, b) for a, b in zip(dst, src)]
        return type(dst)(*v) if hasattr(dst, "_fields") else tuple(v)
    return src


def clone(o):
    if isinstance(o, np.ndarray):
        return o.copy()
    if isinstance(o, tuple):
        v = [clone(a) for a in o]
        return type(o)(*v) if hasattr(o, "_fields") else tuple(v)
    if isinstance(o, list):
        return [clone(a) for a in o]
    if isinstance(o, dict):
        return {k: clone(v) for k, v in o.items()}
    return o


HEAVY = ("cens.loss", "sats.loss", "censat.loss_and_grads_u")   # slow to compile: thorough tier only


def build(rng, tmp, heavy):
    import dm
    from diffmah import diffmah_kernels as dk, utils
    from diffmah import mah_singlehalo, mah_halopop, logmh_at_t_obs
    from diffmah.fitting_helpers import diffmah_fitter_helpers as fh, measure_mahs, fit_utils, bfgs_wrapper
    from diffmah.diffmahpop_kernels import (bimod_cens_fithelp, bimod_sats_fithelp, bimod_censat_fithelp, mc_bimod_cens,
                                            mc_bimod_sats, param_utils, bimod_censat_params as bcp, covariance_kernels)
    from diffmah.data_loaders import io_utils
    f4 = np.float32
    ops = []

    def add(name, fn, mk):
        if heavy or name not in HEAVY:
            ops.append((name, fn, [mk(), mk()]))

    def pop(n):
        return dk.DiffmahParams(*[np.ascontiguousarray(c) for c in dm.halos(rng, n, edge=False).astype(f4).T])

    def one():
        return dk.DiffmahParams(*[float(x) for x in dm.halos(rng, 1, edge=False)[0].astype(f4)])

    def tarr(n=6):
        return np.sort(rng.uniform(0.3, 13.8, n)).astype(f4)
    L0 = np.log10(13.8)
    add("mah_singlehalo", mah_singlehalo, lambda: (one(), tarr(), L0))
    add("mah_halopop", mah_halopop, lambda: (pop(4), tarr(), L0))
    add("logmh_at_t_obs", logmh_at_t_obs, lambda: (pop(4), tarr(4), L0))
    add("get_bounded_mah_params", dk.get_bounded_mah_params,
        lambda: (dk.DiffmahUParams(*rng.normal(0, 20, (5, 4)).astype(f4)),))
    add("get_unbounded_mah_params", dk.get_unbounded_mah_params, lambda: (pop(4),))

    def dp():
        return bcp.DiffmahPop_Params(*[np.asarray(x) for x in bcp.get_diffmahpop_params_from_u_params(
            bcp.DEFAULT_DIFFMAHPOP_U_PARAMS._make(np.array(bcp.DEFAULT_DIFFMAHPOP_U_PARAMS) + rng.normal(0, 2, len(bcp.DEFAULT_DIFFMAHPOP_PARAMS))))])

    def du():
        return bcp.DEFAULT_DIFFMAHPOP_U_PARAMS._make(
            [np.asarray(x, f4) for x in np.array(bcp.DEFAULT_DIFFMAHPOP_U_PARAMS) + rng.normal(0, 1, len(bcp.DEFAULT_DIFFMAHPOP_PARAMS))])

    def key():
        return np.asarray(jran.PRNGKey(int(rng.integers(1 << 30))))

    def lgm(n=3):
        return rng.uniform(11, 14.5, n).astype(f4)

    def tobs(n=3):
        return rng.uniform(3, 13.7, n).astype(f4)
    for nm, mod in (("cens", mc_bimod_cens), ("sats", mc_bimod_sats)):
        a, b = ("mc_diffmah_cenpop", "mc_cenpop") if nm == "cens" else ("mc_diffmah_satpop", "mc_satpop")
        add(a, getattr(mod, a), lambda: (dp(), lgm(), tobs(), key(), L0))
        add(a + "_t_peak", getattr(mod, a), lambda: (dp(), lgm(), tobs(), key(), L0, rng.uniform(2, 13, 3).astype(f4)))
        add(b, getattr(mod, b), lambda: (dp(), tarr(), lgm(), tobs(), key(), L0))
        add(nm + ".predict_mah_moments_singlebin", mod.predict_mah_moments_singlebin,
            lambda: (dp(), tarr(), float(lgm()[0]), float(tobs()[0]), key(), L0))
    tm = lambda: np.sort(rng.uniform(1, 13.7, (2, 6)).astype(f4), axis=1)
    tg = lambda: rng.uniform(10, 13, (2, 6)).astype(f4)
    ld = lambda: (tm(), lgm(2), tobs(2), key(), L0, tg(), tg() * f4(0.02), np.full((2, 6), 0.5, f4))
    add("cens.loss", bimod_cens_fithelp.loss_mah_moments_multibin, lambda: (dp(), *ld()))
    add("sats.loss", bimod_sats_fithelp.loss_mah_moments_multibin, lambda: (dp(), *ld()))

    def ldcs():
        a, b = ld(), ld()
        return (a[0], a[1], a[2], b[0], b[1], b[2], a[3], L0, *a[5:], *b[5:])
    sub = lambda: bcp.get_varied_params_by_exclusion(dp(), [bcp.DEFAULT_DIFFMAHPOP_PARAMS._fields[int(i)] for i in (0, 5, 40)])
    add("censat.loss", bimod_censat_fithelp.loss_mah_moments_multibin_censat, lambda: (sub(), *ldcs()))
    add("censat.loss_and_grads_u", bimod_censat_fithelp.loss_and_grads_mah_moments_multibin_censat_u_params, lambda: (du(), ldcs()))
    add("params_from_u", bcp.get_diffmahpop_params_from_u_params, lambda: (du(),))
    add("u_from_params", bcp.get_diffmahpop_u_params_from_params, lambda: (dp(),))
    add("component_params", bcp.get_component_model_params, lambda: (dp(),))
    fields = list(bcp.DEFAULT_DIFFMAHPOP_PARAMS._fields)
    add("varied_by_exclusion", bcp.get_varied_params_by_exclusion, lambda: (dp(), [fields[int(i)] for i in rng.integers(0, 100, 4)]))
    if hasattr(bcp, "_get_all_diffmahpop_params_from_varied"):
        add("all_from_varied", bcp._get_all_diffmahpop_params_from_varied, lambda: (sub(),))
    add("mc_select", param_utils.mc_select_diffmah_params, lambda: (pop(4), pop(4), rng.uniform(size=4) < 0.5))
    add("cov", covariance_kernels._get_diffmahpop_cov, lambda: (dp(), float(lgm()[0])))
    # fitter: numpy code, the places where arguments could be written to
    tsim = np.linspace(0.5, 13.8, 40)

    def sim():
        m = np.array(10 ** np.asarray(mah_singlehalo(one(), tsim.astype(f4), L0)[1], np.float64))
        m[: int(rng.integers(0, 8))] = 0.0
        m *= 10 ** rng.normal(0, 0.01, 40)
        return m
    add("get_loss_data", lambda t, m, c: fh.get_loss_data(t, m, lgm_min=c), lambda: (tsim.copy(), sim(), float(rng.uniform(8, 11))))
    add("get_loss_data_tpk", lambda t, m, c: fh.get_loss_data(t, m, lgm_min=c, tpeak_fixed=7.0), lambda: (tsim.copy(), sim(), 10.0))
    add("diffmah_fitter", lambda t, m: tuple(fh.diffmah_fitter(t, m, lgm_min=9.0)), lambda: (tsim.copy(), sim()))
    add("diffmah_fitter_skip", lambda t, m: tuple(fh.diffmah_fitter(t, m, lgm_min=9.0, force_skip_fit=True)), lambda: (tsim.copy(), sim()))
    add("get_outline", lambda p, l, lt, h: fh.get_outline(fh.DiffmahFitResult(p, l, False, True, 0, fh.DiffmahFitLossData(lt, lt, 1.0, 1.14)), halo_id=h),
        lambda: (one(), float(rng.uniform()), np.sort(rng.uniform(9, 12, 8)), int(rng.integers(1 << 50))))
    add("indx_t_peak_halopop", fh.compute_indx_t_peak_halopop, lambda: (np.sort(rng.uniform(9, 12, (3, 8)).astype(f4), axis=1),))
    add("loss_and_grads_kern", fh.loss_and_grads_kern,
        lambda: (rng.normal(0, 1, 4).astype(f4), (tarr(), rng.uniform(9, 12, 6).astype(f4), f4(3.0), f4(1.14))))

    def quad(p, d):
        p = np.asarray(p, float)
        return float(np.sum((p - d) ** 2)) + 0.1, 2 * (p - d)
    add("adam", lambda p, d: tuple(fit_utils.jax_adam_wrapper(quad, p, d, 6, n_warmup=1, warmup_n_step=4)), lambda: (rng.normal(0, 1, 3), rng.normal(0, 1, 3)))
    add("fallback", lambda p, d: tuple(bfgs_wrapper.bfgs_adam_fallback(quad, p, d, 6)), lambda: (rng.normal(0, 1, 3), rng.normal(0, 1, 3)))
    m2 = lambda: 10 ** np.sort(rng.uniform(10, 12, (20, 6)), axis=1)
    add("measure_target_data", measure_mahs.measure_target_data,
        lambda: (m2(), rng.uniform(1, 5, (20, 6)), np.linspace(0.1, 1.14, 6), np.linspace(0.2, 1.1, 4), 12.0))
    add("clean_mask", measure_mahs.get_clean_sample_mask, lambda: (np.sort(rng.normal(11, 1, (50, 5)), axis=1), 12.0, 1))
    # utilities
    add("get_1d_arrays", utils.get_1d_arrays, lambda: (rng.normal(size=5), 3.0, rng.normal(size=5)))
    add("get_dt_array", utils.get_dt_array, lambda: (np.sort(rng.uniform(0, 13, 7)),))
    add("cholesky", utils.get_cholesky_from_params, lambda: (rng.normal(size=10).astype(f4),))
    add("trimmed", utils.trimmed_mean_and_variance, lambda: (rng.normal(size=30).astype(f4), 0.1))
    add("trimmed_mean", utils.trimmed_mean, lambda: (rng.normal(size=30).astype(f4), 0.1))
    cc = lambda: (lambda a: np.array(a @ a.T + 4 * np.eye(4), dtype=f4))(rng.normal(size=(4, 4)))
    add("corr_from_cov", utils.correlation_from_covariance, lambda: (cc(),))
    add("cov_from_corr", utils.covariance_from_correlation, lambda: (cc(), rng.uniform(1, 2, 4).astype(f4)))
    # files
    import h5py
    fn = os.path.join(tmp, "flat.h5")
    with h5py.File(fn, "w") as h:
        for k in "abcd":
            h[k] = rng.normal(size=9)
    add("load_flat_hdf5", lambda a, b, k: io_utils.load_flat_hdf5(fn, a, b, k), lambda: (int(rng.integers(0, 4)), int(rng.integers(5, 9)), ["c", "a"]))

    def wr(d):
        p = os.path.join(tmp, "o.h5")
        fh.write_collated_data(p, d)
        with h5py.File(p) as h:
            return {k: h[k][...] for k in sorted(h)}
    add("write_collated_data", wr, lambda: (np.array([["%.5e" % x for x in rng.normal(size=6)] + ["3", "0"] for _ in range(4)]),))
    return ops


def main():
    cfg = json.load(open(sys.argv[1]))
    tmp = tempfile.mkdtemp(dir=cfg["tmp"])
    ops = build(np.random.default_rng(cfg["argseed"]), tmp, cfg["heavy"])
    names = [o[0] for o in ops]
    out, meta = [], []
    consts = package_constants()

    def dflt():
        return vf.h31([(k, _norm(v)) for k, v in consts])
    held = []
    out.append(dict(ev="proc", defaults=dflt()))
    meta.append("process start")
    n, per, seqs = len(names), cfg["per"], cfg["seqs"]
    prng = np.random.default_rng(cfg["planseed"])
    order = prng.permutation(n)
    plan = [(seqs[int(prng.integers(len(seqs)))], (int(a), int(order[(j + 1 + r) % n] if r < per - 1 else a)))
            for j, a in enumerate(order) for r in range(per)]
    for seq, pair in (plan[::-1] if cfg["rev"] else plan):
        cur = {}
        for o in (1, 2):
            op = ops[pair[o - 1]]
            cur[o] = [clone(op[2][0]), 0]
        if pair[0] == pair[1]:
            cur[2] = cur[1]
        for act, o, a in seq:
            name, fn, args = ops[pair[o - 1]]
            if act == "refill":
                cur[o][0] = refill(cur[o][0], clone(args[a - 1]))
                out.append(dict(ev="refill", held=[freeze(r) for r in held]))
                meta.append((name, a))
                continue
            before = freeze(cur[o][0])
            try:
                r = fn(*cur[o][0])
                res = freeze(r)
            except Exception as e:
                out.append(dict(ev="raises", op=name))
                meta.append((name, repr(e)[:300]))
                continue
            drop = max(0, len(held) - 9)
            out.append(dict(ev="call", op=name, args=before, after=freeze(cur[o][0]), defaults=dflt(), res=res,
                            held=[freeze(x) for x in held], drop=drop))
            meta.append((name, vf._j(cur[o][0]) if len(str(cur[o][0])) < 600 else "large"))
            held = held[drop:] + [r]
    json.dump(dict(ev=out, meta=vf._j(meta), consts=len(consts), names=names), open(cfg["out"], "w"))


main()
