"""C08 parameter routing and influence (spec/Routing, RoutingModel, RoutingTrace, PopTables)."""
from collections import namedtuple
import numpy as np

CFG = "SPECIFICATION Spec\nINVARIANT Inv\nPROPERTY KeepsOthers\nPOSTCONDITION Emit\nCHECK_DEADLOCK FALSE\n"
OWN = ("tpc", "tps", "m0", "m0s", "tc", "ei", "li", "fec", "cov")
QS = ("logm0", "logtc", "early_index", "late_index")


def run(ctx):
    import jax
    from jax import random as jran
    from diffmah.diffmahpop_kernels import bimod_censat_params as bcp, mc_bimod_cens as mc, mc_bimod_sats as ms
    rng = ctx.rng
    reqs = ctx.generate("RoutingModel", CFG)
    D = bcp.DEFAULT_DIFFMAHPOP_PARAMS
    names = list(D._fields)
    n = len(names)
    evs, meta = [], []

    def ints(t):
        return [int(round(float(x))) if np.isfinite(float(x)) else -7 for x in t]

    def full_event(vals):
        evs.append(dict(ev="full", names=names, vals=vals)); meta.append("full")
        return type(D)(**{k: float(v) for k, v in zip(names, vals)})

    def views(P, u=False):
        f = bcp.get_component_model_u_params if u else bcp.get_component_model_params
        if u:
            P = bcp.DiffmahPop_UParams(**{"u_" + k: v for k, v in P._asdict().items()})
        r = ctx.must(f.__name__ if hasattr(f, "__name__") else "component params", f, P)
        if r is None:
            return
        for o, t in zip(OWN, r):
            ks = [k[2:] if u and k.startswith("u_") else k for k in t._fields]
            evs.append(dict(ev="view", owner=o, names=ks, vals=ints(t))); meta.append((o, "u" if u else "", t))
        if len(r) != len(OWN):
            ctx.violation("component-count", f"{len(r)} components", {})
    complete = getattr(bcp, "_get_all_diffmahpop_params_from_varied", None)
    # ---- views with unique markers
    for rep in range(2 if ctx.quick else 8):
        vals = (rng.permutation(n) * 3 + 11).tolist()
        P = full_event(vals)
        views(P)
        views(P, True)
        ctx.count(2 * n)
    # ---- every request of the model (subset in the quick tier), abstract names mapped to groups of real ones
    sel = rng.permutation(len(reqs))[: 90 if ctx.quick else 700]
    for ri in sel:
        groups = {}
        perm = rng.permutation(n)
        cuts = np.sort(rng.integers(1, n, 3))
        for a, g in zip("abcd", np.split(perm, cuts)):
            groups[a] = [names[i] for i in g]
        base = (rng.permutation(n) * 3 + 11).tolist()
        P = full_event(base)
        for op, s, v in reqs[ri]:
            ns = [k for a in s for k in groups[a]]
            if not ns:
                continue
            rng.shuffle(ns)
            if op == "override" and complete is None:
                continue
            if op == "override":
                if len(ns) > 40 and ctx.quick:
                    ns = ns[:40]
                vv = (rng.permutation(len(ns)) * 3 + 1000 + v).tolist()
                V = namedtuple("Varied", ns)(*[float(x) for x in vv])
                r = ctx.must("_get_all_diffmahpop_params_from_varied", complete, V, P)
                if r is None:
                    return
                evs.append(dict(ev="override", names=ns, vals=vv, onames=list(r._fields), ovals=ints(r)))
                meta.append(("override", ns, vv))
                P = full_event(ints(r))
            else:
                ex = ns if rng.uniform() < 0.5 else tuple(ns)
                r = ctx.must("get_varied_params_by_exclusion", bcp.get_varied_params_by_exclusion, P, ex)
                if r is None:
                    return
                evs.append(dict(ev="exclude", ex=ns, onames=list(r._fields), ovals=ints(r)))
                meta.append(("exclude", ns))
                if len(r) and complete is not None:
                    c = ctx.must("_get_all_diffmahpop_params_from_varied", complete, r, P)
                    if c is None:
                        return
                    evs.append(dict(ev="override", names=list(r._fields), vals=ints(r), onames=list(c._fields), ovals=ints(c)))
                    meta.append(("complete", ns))
            ctx.count(1, (op, tuple(s)))
    # completing against the defaults uses the defaults' own values
    some = [names[i] for i in rng.permutation(n)[:9]]
    V = namedtuple("Varied", some)(*range(9))
    r = ctx.must("_get_all_diffmahpop_params_from_varied", complete, V) if complete else None
    if r is not None:
        same = all(np.float32(getattr(r, k)) == np.float32(getattr(D, k)) for k in names if k not in some)
        evs.append(dict(ev="full", names=names, vals=[1] * n)); meta.append("")
        evs.append(dict(ev="override", names=some, vals=list(range(9)), onames=names,
                        ovals=[int(getattr(r, k)) if k in some else int(same) for k in names]))
        meta.append(("defaults kept", some))
    # ---- influence matrix
    lgt0 = np.log10(13.8)
    nh = 10
    U = bcp.DEFAULT_DIFFMAHPOP_U_PARAMS
    tarr = np.linspace(1.0, 13.7, 4)
    reach = {k: set() for k in names}
    nb = 3 if ctx.quick else 10
    b = -1
    while b + 1 < nb or (any(not v for v in reach.values()) and b < 60):
        b += 1
        lgm = rng.uniform(11.2, 14.5, nh).astype("f4")
        tob = rng.uniform(3, 13.5, nh).astype("f4")
        tpk = (tob * rng.uniform(0.3, 1.0, nh)).astype("f4")
        key = jran.PRNGKey(int(rng.integers(1 << 30)))
        u0 = np.array(U, float) + rng.normal(0, 4 if b == 0 else 20, n)

        def preds(u):
            P = bcp.get_diffmahpop_params_from_u_params(bcp.DiffmahPop_UParams(*[np.float32(x) for x in u]))
            out = {}
            for kind, mod, pf in (("cen", mc, mc.mc_diffmah_cenpop), ("sat", ms, ms.mc_diffmah_satpop)):
                g = pf(P, lgm, tob, key, lgt0)
                f = pf(P, lgm, tob, key, lgt0, tpk)
                out[(kind, "both", "tp")] = np.asarray(g.mah_params.t_peak)
                out[(kind, "early", "tp")] = np.asarray(g.mah_params_early.t_peak)
                out[(kind, "late", "tp")] = np.asarray(g.mah_params_late.t_peak)
                out[(kind, "both", "fec")] = np.asarray(f.frac_early_cens)
                for q in QS:
                    out[(kind, "early", q)] = np.asarray(getattr(f.mah_params_early, q))
                    out[(kind, "late", q)] = np.asarray(getattr(f.mah_params_late, q))
                if b == 0 or not ctx.quick:
                    out[(kind, "both", "mom")] = np.concatenate([np.asarray(x) for x in mod.predict_mah_moments_singlebin(
                        P, tarr, lgm[0], tob[0], key, lgt0)[:2]])
            return out
        base = ctx.must("predictions", preds, u0)
        if base is None:
            return
        for i in (range(n) if b < nb else [i for i in range(n) if not reach[names[i]]]):
            u1 = u0.copy()
            u1[i] += 12.0 if (b + i) % 2 else -12.0
            p1 = ctx.must("predictions", preds, u1)
            if p1 is None:
                return
            ch = [k for k in base if not np.array_equal(base[k], p1[k], equal_nan=True)]
            evs.append(dict(ev="influence", p=names[i], changed=[list(k) for k in ch]))
            meta.append((names[i], u0[i], u1[i], ch))
            reach[names[i]].update(k for k in ch if np.nanmax(np.abs(base[k] - p1[k])) > 2e-6)
        ctx.count(n)
    for k in names:
        evs.append(dict(ev="reach", p=k, changed=[list(x) for x in sorted(reach[k])])); meta.append(k)
    ctx.trace("RoutingTrace", evs, meta)
    ctx.notes["rule"] = "one delivery, override, exclusion or one-parameter change; distinct = (operation, abstract name order)"
    ctx.notes["parameters"] = n
    ctx.notes["requests_generated"] = len(reqs)
