"""Runs the fitting scripts as MPI jobs of thread ranks with a recording stand-in fitter."""
import contextlib, inspect, io, os, shutil, sys, warnings
import numpy as np
import vf, haccstub, mpisim, fitlib
from vf import fx

SCR = os.path.join(vf.REPO, "scripts", "fitting_scripts")
CODE = {}
COLS = ["logm0", "logtc", "early_index", "late_index", "t_peak", "loss", "n_points_per_fit", "fit_algo"]
CALLS = {}
_n = [0]


def lg(a):
    with np.errstate(all="ignore"):
        return fx(np.log10(np.asarray(a, float)))


def install():
    mpisim.install()
    C = haccstub.Cosmo
    sims = [haccstub.Sim("DiscoveryLCDM", C(0.31, -1.0, 0.0, 0.676), 7), haccstub.Sim("DiscoveryW0WA", C(0.34, -0.7, -0.9, 0.647), 6),
            haccstub.Sim("LastJourney", C(0.2648, -1.0, 0.0, 0.7112), 8)]
    haccstub.install(sims)
    import diffmah.data_loaders.load_hacc_mahs  # noqa
    import diffmah.data_loaders.load_bpl_um_data  # noqa
    import diffmah.data_loaders.load_tng_mahs  # noqa
    import diffmah.data_loaders.load_galacticus_eps_mahs  # noqa
    import diffmah.fitting_helpers  # noqa
    from diffmah.fitting_helpers import diffmah_fitter_helpers as fh
    real = fh.diffmah_fitter
    sig = inspect.signature(real)
    t = np.linspace(0.5, 13.8, 20)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        base = real(t, 10 ** (12 - 3 * (13.8 - t) / 13.8), nstep=5)
    f32 = np.float32

    def fake(*a, **k):
        if mpisim.CUR is not None:
            mpisim.CUR.point("fit")
        b = sig.bind(*a, **k)
        b.apply_defaults()
        d = dict(b.arguments)
        _n[0] += 1
        c = _n[0]
        m = np.array(d["mah_sim"], float)
        tt = np.array(d["t_sim"], float)
        assert m.shape == tt.shape, "Mismatched shapes for diffmah_fitter inputs"
        CALLS[c] = dict(t=tt, m=m, cuts=cuts(**{q: d.get(q) for q in d if q not in ("t_sim", "mah_sim")}), rank=mpisim._rank())
        lm = np.array([9.0] * (c % 13) + [12.0] * 2)
        ld = base.loss_data._replace(log_mah_target=lm, t_target=np.arange(len(lm)) + 1.0)
        p = base.p_best._make([f32(c), f32(-c), f32(2 * c), f32(3 * c), f32(4 * c)])
        return base._replace(p_best=p, loss_best=f32(5 * c), code_used=(c % 3) - 1, skip_fit=bool(d.get("force_skip_fit")), loss_data=ld)
    fake.__signature__ = sig
    fitlib.swap(real, fake)
    dflt = {k: p.default for k, p in sig.parameters.items() if p.default is not inspect.Parameter.empty}
    global DEFAULTS
    DEFAULTS = cuts(**dflt)
    return fh


def cuts(**k):
    """arguments of a fit in a canonical form"""
    out = []
    for n in sorted(k):
        v = k[n]
        out.append([n, "None" if v is None else str(bool(v)) if n == "force_skip_fit" else "%.6g" % float(v)])
    return out


def with_cuts(**k):
    d = {a: b for a, b in DEFAULTS}
    for n, v in cuts(**k):
        if n in d:
            d[n] = v
    return [[a, d[a]] for a in sorted(d)]


def ages(z, Om, w0, wa, h):
    from astropy.cosmology import Flatw0waCDM
    return Flatw0waCDM(H0=100 * h, Om0=Om, w0=w0, wa=wa, Tcmb0=0).age(np.asarray(z, float)).value


def masses(rng, n, nt):
    """stored histories with dips and zeros, positive at the end, distinguishable"""
    m = 10 ** (rng.uniform(10, 14, (n, 1)) - np.linspace(rng.uniform(1, 4), 0, nt) + rng.normal(0, 0.3, (n, nt)))
    if n:
        m[rng.uniform(size=n) < 0.5, : rng.integers(0, nt)] = 0
        m[:, -1] = 10 ** (11 + np.arange(n) * 0.013 + rng.uniform(0, 1))
    return m


class Job:
    """one configured script: inputs on disk, command line, expected units"""

    def __init__(self, kind, rng, root, nmax=6):
        import h5py
        self.kind, self.root = kind, root
        self.inp, self.out = os.path.join(root, "in"), os.path.join(root, "out")
        os.makedirs(self.inp)
        n = lambda: int(rng.integers(1, nmax + 1))
        self.units, self.extra, self.desc = [], [], dict(script=kind)
        self.sticky = []
        if kind in ("discovery", "lastjourney"):
            name = str(rng.choice(["LCDM", "W0WA"])) if kind == "discovery" else "LastJourney"
            s = vf_sim(("Discovery" if kind == "discovery" else "") + name)
            zs = s.step2z(np.array(s.cosmotools_steps))
            t = ages(zs, s.cosmo.Omega_m, s.cosmo.w0, s.cosmo.wa, s.cosmo.h)
            avail = sorted(rng.choice(np.arange(13), int(rng.integers(2, 5)), replace=False).tolist()) if kind == "discovery" else list(range(int(rng.integers(2, 5))))
            nch = int(rng.choice([1, 2, 3, 11])) if nmax > 3 else int(rng.choice([1, 2]))
            lo = int(rng.integers(0, len(avail)))
            hi = int(rng.integers(lo + 1, min(len(avail), lo + 2) + 1))
            for sv in avail:
                fn = os.path.join(self.inp, f"m000p.coreforest.{sv}.hdf5")
                open(fn, "w").close()
                nh = nch - 1 + n()
                m = masses(rng, nh, len(t))
                F = {"infall_tree_node_mass": m, "infall_fof_halo_mass": m * 3, "tree_node_mass": m / 2}
                self.sticky.append((fn, F))
                if sv in avail[lo:hi]:
                    w = max(1, len(str(nch)))
                    for c, part in enumerate(np.array_split(m, nch)):
                        self.units.append(dict(f=f"out/subvol_{sv}_chunk_{c:0{w}d}.hdf5", t=t, m=np.maximum.accumulate(part, axis=1) / s.cosmo.h,
                                               cuts=[with_cuts()] * len(part), ids=None))
            if kind == "discovery":
                self.argv = [self.inp, name, self.out, "-istart", str(lo), "-iend", str(hi), "-nchunks", str(nch)]
                if rng.uniform() < 0.2 and lo == 0 and hi == len(avail):
                    self.argv = [self.inp, name, self.out, "-nchunks", str(nch)]
            else:
                self.argv = [self.inp, self.out, "base.h5", "-istart", str(lo), "-iend", str(hi), "-nchunks", str(nch), "-num_subvols_tot", str(len(avail))]
            self.desc.update(avail=avail, istart=lo, iend=hi, nchunks=nch)
            self.script = {"discovery": "hacc_discovery_sims_diffmah_fitter_script.py", "lastjourney": "hacc_lastjourney_diffmah_fitter_script.py"}[kind]
        elif kind == "tng":
            nh, nt = n(), int(rng.integers(3, 8))
            t = np.sort(rng.uniform(0.3, 13.7, nt)); t[-1] = 13.8
            m = masses(rng, nh, nt)
            with np.errstate(all="ignore"):
                L = np.where(m == 0, 0, np.log10(m)).astype("f4")
            a = np.zeros(nh, dtype=[("mpeak", "f4"), ("mpeakh", "f4", (nt,))])
            a["mpeakh"], a["mpeak"] = L, L.max(1)
            np.save(os.path.join(self.inp, "tng_diffmah.npy"), a)
            np.save(os.path.join(self.inp, "tng_cosmic_time.npy"), t)
            La = np.maximum.accumulate(L.astype(float), axis=1)
            self.units.append(dict(f="out/diffmah_tng_fits.hdf5", t=t, m=np.where(La == 0, 0, 10**La) / 0.6774, cuts=[with_cuts()] * nh, ids=None))
            self.argv = [self.inp, self.out]
            self.script = "tng_diffmah_fitter_script.py"
        elif kind == "galacticus":
            nh = n()
            rag = [masses(rng, 1, int(rng.integers(2, 8)))[0] for _ in range(nh)]
            for i in range(nh):
                rag[i][-1] = 10 ** (11 + i * 0.013 + 0.5)
            T0 = 13.8
            tim = []
            for x in rag:
                kind_ = rng.integers(0, 4)
                t1 = T0 if kind_ < 2 else float(rng.uniform(2, 13))
                dt = float(rng.choice([0.05, 0.3, 2.0, 8.0]))
                t0 = max(0.1, t1 - dt)
                tim.append(np.linspace(t0, t1, len(x)))
            tim[int(rng.integers(0, nh))][-1] = T0
            T0 = max(x[-1] for x in tim)
            with h5py.File(os.path.join(self.inp, "g.hdf5"), "w") as f:
                g = f.create_group("Outputs/Output1/nodeData")
                vt = h5py.vlen_dtype(np.dtype("f8"))
                for nm, x in (("haloAccretionHistoryMass", rag), ("haloAccretionHistoryTime", tim)):
                    ds = g.create_dataset(nm, (nh,), dtype=vt)
                    for i in range(nh):
                        ds[i] = x[i]
                g["nodeIsIsolated"], g["basicTimeLastIsolated"] = np.ones(nh, "i4"), np.ones(nh)
            dtm = float(rng.choice([0.5, 0.1, 3.0]))
            T, M, Q = [], [], []
            for x, tt in zip(rag, tim):
                y, q = np.maximum.accumulate(x), tt
                sk = bool(tt[-1] - tt[0] < dtm)
                if tt[-1] < T0:
                    q, y = np.append(tt, T0), np.append(y, y[-1])
                T.append(q); M.append(y); Q.append(with_cuts(force_skip_fit=sk))
            self.units.append(dict(f="out/gal_fits.h5", t=T, m=M, cuts=Q, ids=None))
            self.argv = ["-indir", self.inp, "-inbn", "g.hdf5", "-outdir", self.out, "-outbn", "gal_fits.h5"] + ([] if dtm == 0.5 else ["-dt_fit_min", str(dtm)])
            self.script = "galacticus_diffmah_fitter_script.py"
        elif kind == "bolshoi":
            from umachine_pyio.memmap_array_utils import write_ndarray_to_memmap
            nt, nsv = int(rng.integers(3, 8)), int(rng.integers(1, 4))
            a = np.sort(rng.uniform(0.1, 0.99, nt)); a[-1] = 1.0
            np.savetxt(os.path.join(self.inp, "scale_list_bpl.dat"), a)
            t = ages(1 / a - 1, 0.307, -1, 0, 0.678)
            lo = int(rng.integers(0, nsv)); hi = int(rng.integers(lo, nsv))
            I, M = [], []
            for sv in range(nsv):
                nh = n()
                m = masses(rng, nh, nt).astype("f4")
                ids = rng.integers(0, 2**62, nh)
                for col, arr in (("halo_id", ids), ("mpeak_history_main_prog", m)):
                    p = os.path.join(self.inp, f"subvol_{sv}", col)
                    os.makedirs(p)
                    write_ndarray_to_memmap(arr, os.path.join(p, col + ".memmap"))
                if lo <= sv <= hi:
                    I.append(ids); M.append(m)
            I, M = np.concatenate(I), np.maximum.accumulate(np.concatenate(M).astype(float), axis=1).clip(1.0)
            self.units.append(dict(f="out/diffmah_fits.hdf5", t=t, m=M, cuts=[with_cuts(lgm_min=10.0, t_fit_min=1.0, nstep=200, n_warmup=1)] * len(M), ids=[str(x) for x in I]))
            self.extra = [("out/bpl_mpeak_histories.hdf5", dict(halo_id=[str(x) for x in I], mpeak_history=M, bpl_t_table=t))]
            self.argv = [self.inp, self.out, "-istart", str(lo), "-iend", str(hi)]
            self.script = "bolshoi_planck_fitting_script.py"
        self.outs = [u["f"] for u in self.units] + [e[0] for e in self.extra]
        self.desc["halos"] = [len(u["m"]) for u in self.units]
        self.desc["argv"] = self.argv
        # files that have nothing to do with the job
        os.makedirs(self.out)
        self.decoys = {"notes.txt": "keep", "subvol_99_chunk_0.hdf5": "not a real file", "tmp_other.dat": "x", "mah_fits_rank_0.dat": "y"}
        for k, v in self.decoys.items():
            open(os.path.join(self.out, k), "w").write(v)
        os.makedirs(os.path.join(root, "cwd"))
        self.insig = self.tree(self.inp)

    def tree(self, d):
        return {os.path.relpath(os.path.join(a, f), d): open(os.path.join(a, f), "rb").read() for a, _, fs in os.walk(d) for f in fs}

    def reset(self):
        shutil.rmtree(self.out)
        os.makedirs(self.out)
        for k, v in self.decoys.items():
            open(os.path.join(self.out, k), "w").write(v)

    def leftovers(self):
        known = set(self.decoys) | {os.path.relpath(f, "out") for f in self.outs}
        return sorted(f for f in self.tree(self.out) if f not in known)

    def touched(self):
        t = self.tree(self.out)
        return any(t.get(k) != v.encode() for k, v in self.decoys.items()) or self.tree(self.inp) != self.insig

    def run(self, R, mode, chooser, on_event=None):
        for fn, F in self.sticky:
            haccstub.FOREST[fn] = F
        p = os.path.join(SCR, self.script)
        if p not in CODE:
            CODE[p] = compile(open(p).read(), p, "exec")
        code = CODE[p]
        s = mpisim.Sim(R, chooser, mode, scratch=self.root, on_event=on_event)
        argv, cwd, so = sys.argv, os.getcwd(), sys.stdout
        sys.argv = [p] + self.argv
        os.chdir(os.path.join(self.root, "cwd"))
        sys.stdout = io.StringIO()
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            try:
                s.run(lambda r: exec(code, {"__name__": "__main__", "__file__": p}))
            finally:
                sys.argv, sys.stdout = argv, so
                os.chdir(cwd)
        return s


def vf_sim(name):
    return sys.modules["haccytrees"].Simulation.simulations[name]


def protocol_events(job, s):
    """the events of the run in the specification's vocabulary"""
    evs = [dict(ev="start", outs=job.outs)]
    for e in s.events:
        f = e.get("f")
        if e["ev"] == "escape":
            evs.append(dict(ev="escape"))
        elif f is None or not str(f).startswith("out" + os.sep):
            if f is not None and e["ev"] in ("remove", "open-w") and str(f).startswith("in" + os.sep):
                evs.append(dict(ev="escape"))
        elif e["ev"] == "open-w":
            evs.append(dict(ev="w", f=f))
        elif e["ev"] == "open-r":
            if os.path.basename(f) not in job.decoys:
                evs.append(dict(ev="r", f=f, busy=bool(e["busy"])))
        elif e["ev"] == "remove":
            evs.append(dict(ev="escape") if os.path.basename(f) in job.decoys else dict(ev="rm", f=f, busy=bool(e["busy"])))
        elif e["ev"] == "rename":
            evs.append(dict(ev="ren", f=f, g=e["g"]))
        elif e["ev"] == "h5-open" and e["mode"] != "r":
            evs.append(dict(ev="hw", f=f))
        elif e["ev"] == "h5-close" and e["mode"] != "r":
            evs.append(dict(ev="hc", f=f))
    return evs


def output_events(job, seen):
    """judge the outputs on disk; identical fits are judged once (seen)"""
    import h5py
    evs = []
    for u in job.units:
        fn = os.path.join(job.root, u["f"])
        names = (["halo_id"] if u["ids"] is not None else []) + COLS
        e = dict(ev="unit", n=len(u["m"]), found=False, rows=[], ids=[], wids=u["ids"] or [])
        try:
            with h5py.File(fn, "r") as f:
                d = {k: f[k][()] for k in f.keys()}
            e["found"] = set(d) == set(names)
        except Exception:
            d = None
        if e["found"]:
            num = lambda x: int(round(float(x))) if abs(float(x)) < 1e9 and abs(float(x) - round(float(x))) < 0.2 else -777777777
            e["rows"] = [[num(x) for x in r] for r in zip(*[np.atleast_1d(d[c]) for c in COLS])]
            if u["ids"] is not None:
                e["ids"] = [str(x) for x in np.atleast_1d(d["halo_id"])]
        evs.append(e)
        for i, r in enumerate(e["rows"][: len(u["m"])]):
            c = CALLS.get(r[0])
            if c is None:
                evs.append(dict(ev="fit", t=[0], wt=[], m=[], wm=[], cuts=[], wcuts=[]))
                continue
            wt = u["t"][i] if isinstance(u["t"], list) else u["t"]
            q = dict(ev="fit", t=fx(c["t"]), wt=fx(wt), m=lg(c["m"]), wm=lg(u["m"][i]), cuts=c["cuts"], wcuts=u["cuts"][i])
            h = vf.h31(repr(q))
            if h not in seen:
                seen.add(h)
                evs.append(q)
    for fn, want in job.extra:
        try:
            with h5py.File(os.path.join(job.root, fn), "r") as f:
                d = {k: f[k][()] for k in f.keys()}
        except Exception:
            d = {}
        for k, w in want.items():
            g = d.get(k)
            if g is None:
                evs.append(dict(ev="copy", a=[], b=[1]))
            elif k == "halo_id":
                evs.append(dict(ev="copy", a=[vf.h31(str(x)) % 10**9 for x in g], b=[vf.h31(x) % 10**9 for x in w]))
            elif k == "bpl_t_table":
                evs.append(dict(ev="copy", a=[x // 5000 for x in fx(np.asarray(g, float))], b=[x // 5000 for x in fx(w)]))
            else:
                evs.append(dict(ev="copy", a=lg(np.asarray(g).ravel()), b=lg(w.ravel())))
    return evs
