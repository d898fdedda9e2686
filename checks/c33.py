"""C33 diagnostic figures (spec/Figures*)."""
import os, re, tempfile
import numpy as np
import popgen
from vf import fx
CFG = """SPECIFICATION Spec
CONSTANT MaxRows = %d
INVARIANTS OfEpoch NoNearer OrderFree Full Ordered Emit
PROPERTY Stable
CHECK_DEADLOCK FALSE
"""
NKEYS = 24


def run(ctx):
    import matplotlib
    matplotlib.use("Agg", force=True)
    import jax
    from jax import random as jr
    from astropy.table import Table
    from matplotlib import figure, pyplot as plt, collections as mc
    from diffmah.diffmahpop_kernels.diagnostics import plot_bestfit_cen_mahs as fc, plot_bestfit_sat_mahs as fs
    out = ctx.model("FiguresModel", CFG % (2 if ctx.quick else 3), workers=1, timeout=3000)
    ctx.exhaustive = True
    cats = [[(int(a) / 100, int(b) / 100) for a, b in re.findall(r"<<(\d+), (\d+)>>", c)] for c in re.findall(r'<<\s*"B",\s*<<((?:\s*<<\d+, \d+>>,?)+)', out)]
    rng = ctx.rng
    lgt0 = np.log10(13.79)
    preds = {}
    for kind, mod, _, _, momf in popgen.kinds():
        preds[kind] = jax.jit(jax.vmap(jax.vmap(momf, in_axes=(None, None, None, None, 0, None)), in_axes=(None, 0, 0, 0, None, None)))
    keys = jax.vmap(jr.key)(np.arange(NKEYS))
    shots = []
    real = figure.Figure.savefig

    def shot(self, fname, *a, **k):
        shots.append((self, os.path.abspath(str(fname))))
        if draw:
            k["dpi"] = 30
            return real(self, fname, *a, **k)
        open(fname, "w").close()
    figs = {"cen": [("z0", fc.plot_singlepanel_mahs_centrals_z0), ("z2", fc.plot_singlepanel_mahs_centrals_z2), ("res", fc.plot_cen_mah_4panel_residuals)],
            "sat": [("z0", fs.plot_singlepanel_mahs_satellites_z0), ("z2", fs.plot_singlepanel_mahs_satellites_z2), ("res", fs.plot_sat_mah_4panel_residuals)]}
    nt = 5
    evs, meta = [], []
    names = {}
    cool = matplotlib.colormaps["coolwarm"](np.linspace(0, 1, 15))

    def style(l):
        return l.get_linestyle()

    def curve(l):
        return dict(x=fx(np.asarray(l.get_xdata(), float)), y=fx(np.asarray(l.get_ydata(), float)))

    def band(c):
        v = c.get_paths()[0].vertices
        x = np.unique(v[:, 0])
        return dict(x=fx(x), lo=fx(np.array([v[v[:, 0] == q, 1].min() for q in x])), hi=fx(np.array([v[v[:, 0] == q, 1].max() for q in x])))

    def rows_of(tab, pred, only=None):
        m, s = np.asarray(pred[0], float), np.asarray(pred[1], float)
        em, es = m.mean(axis=1), s.mean(axis=1)
        tm = 7 * m.std(axis=1) + 1e-3
        ts = tm + 7 * s.std(axis=1)
        res = []
        for i in range(len(tab)):
            r = dict(lgm=fx(float(tab["lgm_obs"][i])), t=fx(float(tab["t_obs"][i])))
            if only is None or i in only:
                r.update(x=fx(np.asarray(tab["t_table"][i], float)), mean=fx(np.asarray(tab["mean_log_mah"][i], float)), std=fx(np.asarray(tab["std_log_mah"][i], float)),
                         keys=[dict(m=fx(m[i, q]), s=fx(s[i, q])) for q in range(3)], m=fx(em[i]), s=fx(es[i]), tm=fx(tm[i]), ts=fx(ts[i]))
            res.append(r)
        return res
    todo = []
    sub = rng.permutation(len(cats))[:16 if ctx.quick else 150]
    todo += [("model", cats[i]) for i in sub]
    for _ in range(8 if ctx.quick else 60):
        n = int(rng.integers(4, 13))
        lg = rng.uniform(11, 14.75, n)
        t = np.where(rng.uniform(size=n) < 0.35, rng.uniform(13.5, 13.79, n), np.where(rng.uniform(size=n) < 0.4, rng.uniform(2.45, 3.6, n), rng.uniform(2.0, 13.6, n)))
        todo.append(("random", list(zip(lg, t))))
    # bins on both sides of every declared mass, at nearly the same distance
    for sgn in (-1, 1):
        for ep in (0, 1):
            d = rng.uniform(0.08, 0.2, 5)
            e = sgn * rng.uniform(0.01, 0.03, 5)
            lab = np.array([11.25, 12.25, 12.75, 13.5, 14.25])
            lg = np.concatenate((lab - d, lab + d + e))[rng.permutation(10)]
            todo.append(("straddle", list(zip(lg, rng.uniform(13.55, 13.79, 10) if ep == 0 else rng.uniform(2.6, 3.4, 10)))))
    figure.Figure.savefig = shot
    try:
        for num, (src, cat) in enumerate(todo):
            for pop in (("cen", "sat") if src != "model" or num % 2 == 0 else ("sat",) if num % 4 == 1 else ("cen",)):
                P = popgen.pop_params(rng, [0, 5][num % 2])
                if num % 3 == 0:     # little scatter: the sampling allowance is small
                    P = popgen.plain(P._replace(**{k: 0.02 for k in P._fields if k.startswith("std_u_")}))
                n = len(cat)
                lgm, tobs = np.array(cat).T
                tab = Table()
                tab["lgm_obs"], tab["t_obs"] = lgm, tobs
                tt = np.array([np.linspace(0.5, t, nt) for t in tobs])
                tab["t_table"] = tt
                tab["mean_log_mah"] = lgm[:, None] + rng.uniform(-3, 0, (n, nt)).cumsum(axis=1)[:, ::-1] / 3
                tab["std_log_mah"] = rng.uniform(0.05, 0.6, (n, nt))
                # predictions of every row (padded to one shape) with every key
                pad = 13
                idx = np.arange(pad) % n
                pr = preds[pop](P, tt[idx].astype("f4"), lgm[idx].astype("f4"), tobs[idx].astype("f4"), keys, lgt0)
                pr = [np.asarray(x)[:n] for x in pr[:2]]
                for epoch, fn in figs[pop]:
                    elig = [i for i in range(n) if (tobs[i] > 13.5 if epoch == "z0" else abs(tobs[i] - 3) < 0.5 if epoch == "z2" else True)]
                    if not elig or any(abs(abs(t - 3) - 0.5) < 1e-5 or abs(t - 13.5) < 1e-5 for t in tobs):
                        continue
                    draw = ctx.evals < 6
                    shots.clear()
                    before = {c: np.array(tab[c]) for c in tab.colnames}
                    with tempfile.TemporaryDirectory(dir=ctx.work) as d:
                        old = os.getcwd()
                        os.chdir(d)
                        try:
                            drn = os.path.join(d, "a", "b") if num % 2 else "FIGS_%d" % num
                            r = ctx.call(fn, tab, P, drn=drn, timeout=200)
                        finally:
                            os.chdir(old)
                        plt.close("all")
                        info = dict(figure=fn.__name__, bins=cat, params=P)
                        if r[0] == "raise" or not shots:
                            ctx.violation("raises" if r[0] == "raise" else "shape", f"{fn.__name__} on bins {cat}: {r[1] if r[0] == 'raise' else 'no figure saved'}", info)
                            continue
                        fig, fname = shots[-1]
                        want = os.path.realpath(os.path.join(d, drn))
                        found = [os.path.realpath(os.path.join(a, f)) for a, _, fl in os.walk(d) for f in fl]
                    own = names.setdefault(os.path.basename(fname), fn.__name__) == fn.__name__
                    kept = list(before) == tab.colnames and all(np.array_equal(before[c], np.array(tab[c])) for c in before)
                    evs.append(dict(ev="saved", own=own, there=any(os.path.dirname(f) == want for f in found), elsewhere=any(os.path.dirname(f) != want for f in found), kept=kept))
                    meta.append(dict(info, files=found))
                    pn = dict(cen="cens", sat="sats")[pop]
                    ctx.count(1, (pop, epoch, src, len(elig)))
                    if epoch == "res":
                        tts = []
                        for ax in fig.axes:
                            m = re.findall(r"\d+\.?\d*", ax.get_title())
                            tp = float(m[-1]) if m else -1.0
                            tts.append(fx(tp))
                            cur = []
                            for l in ax.lines:
                                if style(l) != "-":
                                    continue
                                col = np.array(matplotlib.colors.to_rgba(l.get_color()))
                                dist = np.abs(cool - col).sum(axis=1)
                                cur.append(dict(curve(l), c=int(np.argmin(dist)) + 1 if dist.min() < 0.02 else 0))
                            evs.append(dict(ev="panel", pop=pn, t=fx(tp), rows=rows_of(tab, pr), curves=cur))
                            meta.append(dict(info, panel=tp))
                        evs.append(dict(ev="panels", t=tts)); meta.append(info)
                    else:
                        ax = fig.axes[0]
                        ls = {k: [curve(l) for l in ax.lines if style(l) == k] for k in ("-", "--", ":")}
                        evs.append(dict(ev="history", pop=pn, epoch=epoch, rows=rows_of(tab, pr), solid=ls["-"], dashed=ls["--"], dotted=ls[":"],
                                        bands=[band(c) for c in ax.collections if isinstance(c, mc.PolyCollection)]))
                        meta.append(info)
    finally:
        figure.Figure.savefig = real
        plt.close("all")
    ctx.trace("FiguresTrace", evs, meta, shards=6)
    ctx.notes["rule"] = "one figure; distinct = (population, figure, source of the catalogue, eligible bins)"
    ctx.assumptions += ["model curves are compared with the package's own predicted moments (their meaning is C13's): exactly under the key in use, or within 7 sigma of sampling under any other",
                        "catalogues with at least one bin of the figure's epoch; bins on the epoch's edge are not judged"]
