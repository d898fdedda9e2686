"""C29 population target tables (spec/PopTargets*): the real script and loader on scratch catalogues."""
import glob, io, os, shutil, sys, warnings
import numpy as np
import vf, mpisim
from vf import fx
CFG = """SPECIFICATION Spec
CONSTANTS NH = %d
 NB = %d
 NSV = %d
 Cap = %d
INVARIANTS Rule NoGap RowsKept
PROPERTY NothingLost
CHECK_DEADLOCK FALSE
"""
DRN = os.path.join(vf.REPO, "scripts", "diffmahpop_tabulation")
T0 = 13.7976158
P5 = ["logm0", "logtc", "early_index", "late_index", "t_peak"]


def load_script():
    import importlib
    import umachine_pyio.load_mock as lm
    store = {}

    def stub(subvols, root, galprops):
        assert len(subvols) == 1
        d = store[(os.path.realpath(root), int(subvols[0]))]
        out = np.zeros(len(d["halo_id"]), dtype=[(k, d[k].dtype, d[k].shape[1:]) for k in galprops])
        for k in galprops:
            out[k] = d[k]
        return out
    lm.load_mock_from_binaries = stub
    sys.path.insert(0, DRN)
    return importlib.import_module("smdpl_diffmahpop_utils"), store


def run(ctx):
    import h5py
    from diffmah.diffmah_kernels import DEFAULT_MAH_PARAMS, mah_halopop
    from diffmah.diffmahpop_kernels import load_diffmahpop_fitdata as lf
    ctx.model("PopTargetsModel", CFG % ((2, 2, 2, 2) if ctx.quick else (3, 2, 2, 2)), workers=4)
    if not ctx.quick:
        ctx.model("PopTargetsModel", CFG % (3, 3, 1, 3), workers=4)
    rng = ctx.rng
    mpisim.install()
    su, store = load_script()
    mpisim.patch()
    main = os.path.join(DRN, "measure_smdpl_diffmahpop.py")
    code = compile(open(main).read(), main, "exec")
    evs, meta = [], []

    def history(p, t):
        """log masses of halos (rows of parameters) at times t; padded to few shapes"""
        p = np.asarray(p, float).reshape(-1, 5)
        n = len(p)
        m = 64 * (1 + n // 64)
        q = np.concatenate([p, np.repeat(p[:1], m - n, axis=0)])
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            r = mah_halopop(DEFAULT_MAH_PARAMS._make([q[:, i] for i in range(5)]), np.asarray(t, float), np.log10(T0))[1]
        return np.asarray(r, float)[:n]

    def params(n, mass):
        lo, hi = rng.uniform(2, 4, n), rng.uniform(0.05, 1.2, n)
        tp = np.where(rng.uniform(size=n) < 0.4, T0, rng.uniform(1, T0, n))
        p = np.array([mass, rng.uniform(-0.2, 0.9, n), lo, hi, tp]).T
        p = np.round(p, 4)
        p[:, 1] = np.round(np.linspace(-0.2, 0.9, n), 4)      # distinct rows
        return p
    njob = 3 if ctx.quick else 24
    for j in range(njob):
        root = os.path.join(ctx.work, f"j{j}")
        fits, cats, outd = (os.path.join(root, k) for k in ("fits", "cats", "out"))
        for d in (fits, cats, outd, os.path.join(root, "cwd")):
            os.makedirs(d)
        nt, nm = int(rng.integers(2, 4)), int(rng.choice([2, 4, 9]))
        nsv = [3, 1, 2][j % 3]
        lo = int(rng.choice([0, 8, 9, 98, 12]))
        ns = int(rng.integers(2, 9))
        tabt = np.sort(np.append(np.round(rng.uniform(0.5, 13.5, ns), 5), T0))
        np.savetxt(os.path.join(cats, "smdpl_cosmic_time.txt"), tabt, fmt="%.7f")
        tobs = np.linspace(2.0, T0, nt)
        if min(np.diff(np.sort(np.abs(t - tabt)))[0] for t in tobs) < 1e-4:
            continue
        tops = 15 + 0.075 * (tobs - 15.0)
        centres = [np.linspace(11, m, nm) for m in tops]
        subs, allp = [], []
        for s in range(nsv):
            n = int(rng.choice([160, 260, 320])) if s == 0 else int(rng.choice([3, 60, 260]))
            k = rng.uniform(size=n)
            mass = np.where(k < 0.35, rng.choice(centres[-1], n) + rng.choice([0, 0.05, -0.05, 0.148, -0.148, 0.152, -0.152], n),
                            np.where(k < 0.9, centres[-1][0] + rng.uniform(-0.1, 0.1, n), rng.uniform(10.8, 15, n)))
            p = params(n, mass)
            lm = history(p, tobs)
            near = np.zeros(n, bool)
            for a in range(nt):
                near |= (np.abs(np.abs(lm[:, [a]] - centres[a][None, :]) - 0.15) < 4e-4).any(axis=1)
            p, lm = p[~near], lm[~near]
            n = len(p)
            fit = rng.uniform(size=n) < 0.8
            loss = np.where(fit, rng.uniform(0, 1, n) * (rng.uniform(size=n) < 0.9), rng.choice([-1.0, -10.0], n))
            if j % 2 == 0:
                loss = loss.astype("f4")
            up = np.where(rng.uniform(size=(n, len(tabt))) < [0.15, 0.6, 0.9][(j + s) % 3], -1, rng.integers(0, 2**60, (n, len(tabt))))
            with h5py.File(os.path.join(fits, f"subvol_{lo + s:03d}_diffmah_fits.h5"), "w") as f:
                order = P5 + ["loss", "n_points_per_fit", "fit_algo", "halo_id"]
                for c in (order if j % 2 else order[::-1]):
                    f[c] = p[:, P5.index(c)] if c in P5 else loss if c == "loss" else rng.integers(0, 9, n)
            store[(os.path.realpath(cats), lo + s)] = dict(halo_id=np.arange(n), upid_history=up)
            subs.append([dict(fit=bool(fit[i]), lms=fx(lm[i]), cen=[bool(x == -1) for x in up[i]]) for i in range(n)])
            allp.append(p)
        others = {"readme.txt": b"hello", "other.npy": b"xx", "lgm_11.00.keep": b"y"}
        for k, v in others.items():
            open(os.path.join(outd, k), "wb").write(v)
        saved = []

        def tables():
            return {os.path.relpath(f, outd): open(f, "rb").read() for f in glob.glob(os.path.join(outd, "NM_*", "*.npy"))}

        def snap(s):
            if not saved and getattr(s, "label", (0, ""))[1] == "remove":
                saved.append(tables())
        s = mpisim.Sim(1, lambda run, sim: run[0], "eager", scratch=root, on_event=snap)
        argv, cwd, so = sys.argv, os.getcwd(), sys.stdout
        sys.argv = [main, outd, "-istart", str(lo), "-iend", str(lo + nsv), "-diffmah_drn", fits, "-sfhcat_drn", cats, "-n_m", str(nm), "-n_t", str(nt)]
        os.chdir(os.path.join(root, "cwd"))
        sys.stdout = io.StringIO()
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            try:
                s.run(lambda r: exec(code, {"__name__": "__main__", "__file__": main}), timeout=300)
            finally:
                sys.argv, sys.stdout = argv, so
                os.chdir(cwd)
        inp = dict(istart=lo, nsubvol=nsv, n_m=nm, n_t=nt, halos=[len(q) for q in subs], errors=s.errors, snapshots=tabt)
        fin = tables()
        left = len([f for f in os.listdir(outd) if f.startswith("subvol_")])
        evs.append(dict(ev="files", ok=s.ok, saved=bool(saved and saved[0] == fin) or not fin, left=left, others=all(open(os.path.join(outd, k), "rb").read() == v for k, v in others.items())
                        and not any(e["ev"] == "escape" for e in s.events)))
        meta.append(inp)
        if not s.ok:
            shutil.rmtree(root)
            continue
        nmd = os.path.dirname(os.path.join(outd, next(iter(fin)))) if fin else None
        rows = {}
        for f in fin:
            b = os.path.basename(f).split("_")
            if len(b) != 6 or not b[5].endswith((".cens.npy", ".sats.npy")):
                ctx.violation("file-name", f"unexpected table {f}", inp)
                continue
            rows[(round(float(b[3]) * 100), round(float(b[1]) * 100), b[5].split(".")[1])] = np.load(os.path.join(outd, f))
        evs.append(dict(ev="names", nt=nt, nm=nm, bins=[dict(t=k[0], lgm=k[1]) for k in rows]))
        meta.append(inp)
        flat = [(v, i, allp[v][i]) for v in range(nsv) for i in range(len(allp[v]))]
        fp = np.array([q[2] for q in flat])

        def ident(r):
            out = []
            for x in np.asarray(r, float).reshape(len(r), -1):
                d = np.abs(fp - x[None, :5]).max(axis=1) if len(x) >= 5 else np.full(len(fp), 9.0)
                k = int(np.argmin(d))
                c = np.flatnonzero(d < 1.1e-4)
                ok = len(c) >= 1 and (len(x) == 5 or abs(x[-1] - x[4]) < 1.1e-4)
                out.append(dict(sv=flat[k][0] + 1, i=flat[k][1] + 1) if ok else dict(sv=0, i=0))
            return out
        for a, t in enumerate(tobs):
            cls = {}
            for c in ("cens", "sats"):
                cls[c] = []
                for m in centres[a]:
                    key = [k for k in rows if k[2] == c and abs(k[0] / 100 - t) < 0.0051 and abs(k[1] / 100 - m) < 0.0051]
                    cls[c].append(ident(rows[key[0]]) if key else [])
            evs.append(dict(ev="bins", t=a + 1, nt=nt, nm=nm, tab=fx(tabt), sub=[[dict(fit=h["fit"], lm=h["lms"][a], cen=h["cen"]) for h in q] for q in subs], **cls))
            meta.append(dict(inp, t_obs=t))
            ctx.count(1, (nt, nm, nsv, a))
        # ---- moments of the tabulated rows
        if nmd:
            nmin = int(rng.choice([5, 20]))
            for resc in (True, False):
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    r = ctx.must("tabulate_target_means_vars", su.tabulate_target_means_vars, nmd, nh_min=nmin, n_t_target=4, rescale=resc, timeout=600)
                if r is None:
                    return
                for c, T in zip(("cens", "sats"), r):
                    judge_table(ctx, evs, meta, T, {k[:2]: v for k, v in rows.items() if k[2] == c}, nmin, resc, history, inp)
                if ctx.quick:
                    break
        shutil.rmtree(root)
    # ---- loader, on tables made by the writer from random samples
    for j in range(2 if ctx.quick else 12):
        root = os.path.join(ctx.work, f"l{j}")
        os.makedirs(root)
        rows = {"cens": {}, "sats": {}}
        for c in rows:
            nb = int(rng.integers(4, 6))
            for b in range(nb):
                key = (int(rng.choice([250, 251, 400, 870, 1380])), int(rng.integers(1100, 1480)))
                n = int([101, 1300, 128, 60, 220][b] if b < 5 else rng.integers(80, 260))
                rows[c][key] = X = params(n, key[1] / 100 + rng.uniform(-0.15, 0.15, n))
                X[:4, 4] = [key[0] / 100, key[0] / 100, 0.5, 0.5]      # peaks exactly at times of the table
                X = np.concatenate([X, X[:, 4:]], axis=1)
                np.save(os.path.join(root, f"lgm_{key[1] / 100:.2f}_t_{key[0] / 100:.2f}_mah_params.{c}.npy"), X)
        fc, fs = os.path.join(root, "mean_var_cens.h5"), os.path.join(root, "mean_var_sats.h5")
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            st, v = ctx.call(su.write_mean_variance_to_disk, root, fc, fs, timeout=600)
        if st != "ok":
            ctx.violation("raises", f"write_mean_variance_to_disk: {v}", dict(error=v))
            return
        tab = {}
        for c, f in (("cens", fc), ("sats", fs)):
            with h5py.File(f, "r") as h:
                tab[c] = {k: h[k][()] for k in h.keys()}
            judge_table(ctx, evs, meta, tab[c], rows[c], 100, True, history, dict(loader=j), most=2)
        bins = {c: [dict(lgm=round(float(a) * 100), t=round(float(b) * 100), n=len(rows[c].get((round(float(b) * 100), round(float(a) * 100)), []))) for a, b in zip(tab[c]["lgm_obs"], tab[c]["t_obs"])] for c in tab}
        for lim in range(5 if ctx.quick else 9):
            some = lambda c, k: (int(rng.choice([b[k] for b in bins[c]])) + int(rng.choice([0, 0, -1, 1]))) / 100
            wide = lim == 0
            tc, ts = (2.4, 2.4) if wide else (some("cens", "t"), 2.4) if lim % 2 else (2.4, some("sats", "t"))
            mc, ms = (14.9, 14.9) if wide else (14.9, some("sats", "lgm")) if lim % 2 else (some("cens", "lgm"), 14.9)
            ns = 101 if wide or lim % 3 else int(rng.choice([128, 129, 220]))
            np.random.seed(int(rng.integers(0, 2**31)))
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                r = ctx.must("load_diffmahpop_targets", lf.load_diffmahpop_targets, drn=root, t_obs_min_cen=tc, t_obs_min_sat=ts, lgm_obs_max_cen=mc, lgm_obs_max_sat=ms,
                             n_sample_min=ns, timeout=600)
            if r is None:
                return
            inp = dict(drn_bins=bins, tmin=(tc, ts), mmax=(mc, ms), n_sample_min=ns)
            for c, T, tm, mx in zip(("cens", "sats"), r, (tc, ts), (mc, ms)):
                found = [dict(lgm=round(float(T["lgm_obs"][i]) * 100), t=round(float(T["t_obs"][i]) * 100), n=int(T["n_samples"][i])) for i in range(len(T))]
                evs.append(dict(ev="loaded", bins=bins[c], tmin=round(tm * 100), mmax=round(mx * 100), nmin=ns, found=found))
                meta.append(inp)
                for i in range(min(len(T), (2 if lim == 0 or lim == 3 else 0) if ctx.quick else 9)):
                    X = rows[c].get((found[i]["t"], found[i]["lgm"]))
                    if X is None:
                        continue
                    S = np.array([np.asarray(T[k + "_samples"][i], float) for k in P5]).T
                    d = np.abs(S[:, None, :] - X[None]).max(axis=2)
                    ids = np.where(d.min(axis=1) < 1e-9, d.argmin(axis=1) + 1, 0)
                    tt = np.asarray(T["t_table"][i], float)
                    pick = rng.choice(len(S), min(len(S), 12), replace=False)
                    ref = history(S[pick], tt)
                    L, R = np.asarray(T["log_mah_samples"][i], float), np.asarray(T["log_mah_rescaled_samples"][i], float)
                    evs.append(dict(ev="draw", n=len(X), want=ns, ids=ids.tolist(), nsamp=int(T["n_samples"][i]), lgm=found[i]["lgm"] * 10000, ref=[], lm=[], res=[]))
                    meta.append(dict(inp, bin=found[i], cls=c))
                    e = dict(evs.pop(), want=len(pick), ids=ids[pick].tolist(), ref=fx(ref), lm=fx(L[pick]), res=fx(R[pick]))
                    full = dict(e, want=ns, ids=ids.tolist())
                    # every sample is identified; the histories of some are judged
                    full.update(lm=fx(L[:, [0, -1]]), ref=fx(L[:, [0, -1]]), res=fx(R[:, [0, -1]]))
                    evs += [e, full]
                    meta.append(meta[-1])
                    ctx.count(1, ("load", c, len(X), ns))
        shutil.rmtree(root)
    ctx.trace("PopTargetsTrace", evs, meta, shards=ctx.blocks(evs, lambda e: True, 6))
    ctx.notes["rule"] = "one bin grid of a tabulation run, or one loaded bin"
    ctx.assumptions += ["umachine_pyio's reader replaced by one that serves the generated host histories", "the output directory belongs to one run",
                        "catalogue masses stay 4e-4 dex off the bin edges; snapshot table ends at the simulation's last time",
                        "masses at the bins' times come from the package's own public kernel, judged by C01-C04"]


def judge_table(ctx, evs, meta, T, rows, nmin, resc, history, inp, most=99):
    T = {k: np.asarray(v, float) for k, v in T.items()}
    found = [(round(float(a) * 100), round(float(b) * 100)) for a, b in zip(T["lgm_obs"], T["t_obs"])]
    evs.append(dict(ev="tabled", bins=[dict(lgm=k[1], t=k[0], n=len(v)) for k, v in rows.items()], nmin=nmin, found=[list(f) for f in found]))
    meta.append(inp)
    for i, (m, t) in enumerate(found):
        X = rows.get((t, m))
        if X is None or most == 0:
            continue
        X = np.asarray(X, float)[:, :5]
        if len(X) > 600:
            continue
        tt = T["t_table"][i]
        A = history(X, tt)
        gap = np.abs(X[:, 4][:, None] - np.asarray(tt)[None, :])
        ok = np.all((gap > 1e-6) | (gap == 0))
        e = dict(ev="moments", lm=fx(A), tp=fx(X[:, 4]), times=fx(tt), lgm=m * 10000, tobs=t * 10000, rescaled=resc, mean=fx(T["mean_log_mah"][i]), std=fx(T["std_log_mah"][i]),
                 frac=fx(T["frac_peaked"][i]))
        if not ok:
            continue
        evs.append(e)
        most -= 1
        meta.append(dict(inp, bin=(m, t), rescale=resc))
        ctx.count(1, ("mom", len(X)))
