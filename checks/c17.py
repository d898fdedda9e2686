"""C17 skipped fits (spec/FitTargets*)."""
import numpy as np
import fitlib
from vf import fx


def run(ctx):
    from diffmah.fitting_helpers import diffmah_fitter_helpers as fh
    rng = ctx.rng
    lat = fitlib.lattice(ctx)
    order = rng.permutation(len(lat))
    evs, meta = [], []
    nfit = 0

    def one(p, force):
        inp = dict(t=p["t"], mah=p["mah"], force_skip_fit=force, **p["kw"])
        r = ctx.must("diffmah_fitter", fitlib.quiet, fh.diffmah_fitter, p["t"].copy(), p["mah"].copy(), nstep=2, n_warmup=0, **p["kw"],
                     **({} if force is None else dict(force_skip_fit=force)))
        if r is None:
            return False
        par = np.array([float(x) for x in r.p_best])
        evs.append(dict(ev="skip", h=p["h"], t=p["tf"], c=p["c"], force=bool(force), skip=bool(r.skip_fit), par=[-99000000 if x == -99 else (fx(x) if fx(x) != -99000000 else 0) for x in par],
                        loss=-99000000 if float(r.loss_best) == -99 else fx(min(float(r.loss_best), 1000.0)), code=int(r.code_used), term=bool(r.fit_terminates)))
        meta.append(inp)
        ctx.count(1, (bool(r.skip_fit), bool(force), len(r.loss_data.t_target)))
        return not bool(r.skip_fit)
    todo = []
    # histories that just reach or just miss the threshold, with real fits
    for n in range(1, 9):
        for low in range(0, n + 1):
            for rep in range(4):
                lg = np.full(n, 12.0)
                lg[:low] = 11.0 if rep % 2 else np.linspace(10.5, 11.9, max(low, 1))[:low]
                if rep == 2:     # points a hair below the final one
                    lg[:low] = np.sort(12.0 - 10 ** rng.uniform(-4.5, -1, low))
                t = np.linspace(1.5, 13.8, n) if n > 1 else np.array([13.8])
                todo.append((dict(h=fx(lg), t=t, tf=fx(t), mah=10.0**lg, c=dict(min=fitlib.NINF, cut=2500000, tmin=1000000, fixed=0), kw=dict()), None))
                if rep == 3:     # a prescribed peak time does not make up for missing points
                    tp = float(np.round(rng.uniform(1.0, 14.0), 3))
                    todo[-1][0].update(c=dict(todo[-1][0]["c"], fixed=fx(tp)), kw=dict(tpeak_fixed=tp))
                if rep == 1 and n > 4:     # a young universe, asked to be skipped or not
                    t2 = t * 0.9 / 13.8
                    todo.append((dict(todo[-1][0], t=t2, tf=fx(t2), c=dict(todo[-1][0]["c"], tmin=10000), kw=dict(t_fit_min=0.01)), bool(low % 3)))
    todo += [(fitlib.random_problem(rng, nmax=14), None) for _ in range(30 if ctx.quick else 600)]
    todo += [(lat[i], None) for i in order[: 1500 if ctx.quick else 40000]]
    todo += [(lat[i], bool(k % 2)) for k, i in enumerate(order[-500:])]
    todo += [(fitlib.random_problem(rng), True) for _ in range(300)]
    import time
    t0 = time.time()
    for p, force in todo:
        if not (p["h"][-1] != fitlib.NINF or p["c"]["min"] != fitlib.NINF):
            continue
        nfit += one(p, force)
        if time.time() - t0 > (40 if ctx.quick else 600):
            break
        if ctx.viol:
            return
    # the same decision is taken where the fitting problem is set up
    for p, _ in todo[:400]:
        if p["h"][-1] == fitlib.NINF and p["c"]["min"] == fitlib.NINF:
            continue
        r = ctx.must("get_loss_data", fitlib.quiet, fh.get_loss_data, p["t"], p["mah"], **p["kw"])
        if r is None:
            return
        evs.append(dict(ev="skip", h=p["h"], t=p["tf"], c=p["c"], force=False, skip=bool(r[2]), par=[-99000000] * 5 if r[2] else [0] * 5,
                        loss=-99000000 if r[2] else 0, code=-1 if r[2] else 0, term=False))
        meta.append(dict(t=p["t"], mah=p["mah"], **p["kw"]))
    ctx.trace("FitTargetsTrace", evs, meta, shards=6)
    ctx.notes["fitted"] = nfit
    ctx.notes["rule"] = "one call of the fitter; distinct = (skipped, forced, number of targets)"
    ctx.assumptions += ["histories end with a positive mass or a least fitting mass is given; cuts up to 10 dex"]
