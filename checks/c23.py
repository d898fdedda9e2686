"""C23 loaders (spec/Loaders*): every stored history of the model through every loader."""
import contextlib, importlib.util, io, os, re
import numpy as np
import vf, haccstub, fitlib
from vf import fx
CFG = """SPECIFICATION Spec
CONSTANTS MaxLen = %d
 Levels = %d
INVARIANTS Monotone Commutes Delivered Chunks Emit
CHECK_DEADLOCK FALSE
"""


def lg(a):
    with np.errstate(all="ignore"):
        return fx(np.log10(np.asarray(a, float)))


def ages(z, Om, w0, wa, h):
    from astropy.cosmology import Flatw0waCDM
    c = Flatw0waCDM(H0=100 * h, Om0=Om, w0=w0, wa=wa, Tcmb0=0)
    return c.age(np.asarray(z, float)).value, float(c.age(0.0).value)


def run(ctx):
    rng = ctx.rng
    C = haccstub.Cosmo
    sims = [haccstub.Sim("DiscoveryLCDM", C(0.31, -1.0, 0.0, 0.676), 30), haccstub.Sim("DiscoveryW0WA", C(0.34, -0.7, -0.9, 0.647), 25),
            haccstub.Sim("LastJourney", C(0.2648, -1.0, 0.0, 0.7112), 40), haccstub.Sim("my_sim.cfg", C(0.25, -0.9, 0.1, 1.0), 12)]
    haccstub.install(sims)
    from diffmah.data_loaders import load_hacc_mahs as hacc, load_tng_mahs as tng, load_bpl_um_data as bpl
    from diffmah.data_loaders import load_diffmah_pub_data as pub, load_galacticus_eps_mahs as gal
    sp = importlib.util.spec_from_file_location("script_load_mah_data", os.path.join(vf.REPO, "scripts/fitting_scripts/load_mah_data.py"))
    smod = importlib.util.module_from_spec(sp)
    sp.loader.exec_module(smod)
    out = ctx.model("LoadersModel", CFG % ((5, 3) if ctx.quick else (7, 3)), workers=1)
    H = [[int(x) for x in m.split(",")] for m in re.findall(r'<<"B", <<([\d, ]+)>>>>', re.sub(r"\s+", " ", out))]
    assert len(H) > 500
    ctx.notes["histories_of_the_model"] = len(H)
    bylen = {}
    for h in H:
        bylen.setdefault(len(h), []).append(h)
    evs, meta = [], []

    def batch(n, ncol, kind):
        """n stored histories of ncol columns: the model's levels, or random with dips, zeros"""
        src = bylen.get(ncol)
        rows = []
        for i in range(n):
            if src and rng.uniform() < 0.8:
                h = src[rng.integers(0, len(src))]
                rows.append([0.0 if v == 0 else 10.0 ** (9.5 + v + rng.uniform(0, 0.01) * (v > 0)) for v in h])
                if rng.uniform() < 0.7:     # exact plateaus
                    rows[-1] = [0.0 if v == 0 else 10.0 ** (9 + v) for v in h]
            else:
                x = 10 ** (rng.uniform(10, 15) - np.linspace(rng.uniform(0, 5), 0, ncol) + rng.normal(0, 0.2, ncol))
                x[: rng.integers(0, ncol // 2 + 1)] = 0
                if rng.uniform() < 0.3:
                    x[rng.integers(0, ncol)] = 0
                rows.append(x.tolist())
        return np.array(rows, dtype=np.float32 if rng.uniform() < 0.5 else np.float64)

    def judge(kind, lgh, raw, got, inp, ilog=False, olog=False):
        got = np.asarray(got)
        if got.shape != raw.shape:
            ctx.violation("shape", f"{kind}: delivered shape {got.shape} for stored {raw.shape}", inp)
            return
        seen = set()
        for i in range(len(raw)):
            r = fx(raw[i]) if ilog else lg(raw[i])
            o = fx(np.asarray(got[i], float)) if olog else lg(got[i])
            k = (tuple(r), tuple(o))
            if k in seen:
                continue
            seen.add(k)
            evs.append(dict(ev="row", kind=kind, lgh=lgh, raw=r, out=o)); meta.append(dict(inp, row=i, stored=raw[i], delivered=np.asarray(got[i], float)))
        ctx.count(len(raw), (kind, raw.shape[1], len(raw) == 0))

    def times(t, w, today, ncol, inp):
        t = np.asarray(t, float)
        evs.append(dict(ev="times", t=fx(t), w=fx(w), today=fx(today), ncol=int(ncol))); meta.append(inp)
    d = os.path.join(ctx.work, "cat")
    os.makedirs(d)

    def q(f, *a, **k):
        with contextlib.redirect_stdout(io.StringIO()):
            return fitlib.quiet(f, *a, **k)
    reps = 6 if ctx.quick else 60
    for rep in range(reps):
        # HACC core forests, chunk by chunk
        for s in sims:
            if rep % 2:
                s.__init__(s.name, s.cosmo, int(rng.integers(2, 8)))
            ncol = len(s.cosmotools_steps)
            n = int(rng.choice([1, 2, 5, 11, 23]))
            fn = os.path.join(d, f"m000p.coreforest.{rep}.hdf5")
            raw = batch(n, ncol, "hacc")
            marked = rng.uniform() < 0.6
            if marked:      # rows recognisable by their final mass
                raw[:, -1] = 1e17 * (1 + 1e-3 * np.arange(n))
            F = {"infall_tree_node_mass": raw, "infall_fof_halo_mass": raw * 1.7, "tree_node_mass": raw[:, ::-1].copy(), "sod_halo_mass": raw * 0.9,
                 "redshift": np.tile(s.step2z(s.cosmotools_steps), (n, 1))}
            haccstub.FOREST[fn] = F
            keep = {k: v.copy() for k, v in F.items()}
            zs = s.step2z(np.array(s.cosmotools_steps))
            w, today = ages(zs, s.cosmo.Omega_m, s.cosmo.w0, s.cosmo.wa, s.cosmo.h)
            lgh = fx(np.log10(s.cosmo.h))
            k = int(rng.choice([1, 2, 3, 7]))
            kw = {} if rng.uniform() < 0.7 else dict(mass_colname="infall_fof_halo_mass")
            got = []
            for c in range(k):
                inp = dict(loader="load_mahs", sim=s.name, chunk=c, nchunks=k, **kw)
                r = ctx.must("load_mahs", q, hacc.load_mahs, fn, s.name, c, k, **kw)
                if r is None:
                    continue
                part = np.array_split(raw * (1.7 if kw else 1), k)[c]
                judge("hacc", lgh, part, r[1], inp)
                times(r[0], w, today, np.shape(r[1])[1], inp)
                if marked:
                    last = np.asarray(r[1], float)[:, -1] * s.cosmo.h / (1.7 if kw else 1) / 1e17
                    nums = [int(round((x - 1) * 1e3)) if abs(x - 1 - 1e-3 * round((x - 1) * 1e3)) < 1e-4 else -1 for x in last]
                    evs.append(dict(ev="chunk", n=n, k=k, c=c, rows=nums)); meta.append(inp)
            evs.append(dict(ev="same", clause="stored-data-untouched", a=vf.h31(F), b=vf.h31(keep))); meta.append(s.name)
            if hasattr(hacc, "get_cosmic_time_hacc") and not s.name.endswith(".cfg"):
                r = ctx.must("get_cosmic_time_hacc", q, hacc.get_cosmic_time_hacc, s.name)
                if r is not None:
                    times(r[1], w, today, ncol, dict(f="get_cosmic_time_hacc", sim=s.name))
                    evs.append(dict(ev="same", clause="redshifts", a=fx(np.asarray(r[0], float)), b=fx(zs))); meta.append(s.name)
        # Bolshoi-Planck binaries, written with the library's own writer
        from umachine_pyio.memmap_array_utils import write_ndarray_to_memmap
        drn = os.path.join(d, f"bpl{rep}")
        ncol = int(rng.choice([2, 3, 5, 20]))
        a = np.sort(rng.uniform(0.1, 0.99, ncol)); a[-1] = 1.0
        allids, allm = {}, {}
        for sv in range(12 if rep == 0 else 4):
            n = int(rng.choice([1, 3, 8]))
            m = batch(n, ncol, "bpl").astype("f4")
            m[rng.uniform(size=m.shape) < 0.05] = 0.3
            ids = rng.integers(0, 2**62, n).astype("i8")
            for col, arr in (("halo_id", ids), ("mpeak_history_main_prog", m), ("mpeak", m.max(1))):
                p = os.path.join(drn, f"subvol_{sv}", col)
                os.makedirs(p)
                write_ndarray_to_memmap(arr, os.path.join(p, col + ".memmap"))
            allids[sv], allm[sv] = ids, m
        np.savetxt(os.path.join(drn, "scale_list_bpl.dat"), a)
        w, today = ages(1 / a - 1, 0.307, -1.0, 0.0, 0.678)
        for svs in ([0], [1, 2], [0, 1, 2, 3], list(range(2, len(allids))), [3, 1]):
            inp = dict(loader="load_bpl_mah_data", subvolumes=svs)
            r = ctx.must("load_bpl_mah_data", q, bpl.load_bpl_mah_data, drn, svs)
            if r is None:
                continue
            sel = svs if sorted(svs) == svs else svs
            ids, m, t, lgmin, lgt0 = r
            want = np.concatenate([allids[i] for i in sel])
            wm = np.concatenate([allm[i] for i in sel])
            ids = np.asarray(ids)
            evs.append(dict(ev="rows", ids=[str(x) for x in ids], want=[str(x) for x in want])); meta.append(inp)
            judge("bpl", 0, wm, m, inp)
            times(t, w, today, ncol, inp)
            evs.append(dict(ev="same", clause="today", a=abs(fx(lgt0) - fx(np.log10(float(np.asarray(t)[-1])))) < 3, b=True)); meta.append(inp)
            evs.append(dict(ev="same", clause="minimum-mass", a=fx(lgmin), b=fx(10.0))); meta.append(inp)
        # published catalogues and TNG: structured arrays and time tables
        drn = os.path.join(d, f"pub{rep}")
        os.makedirs(drn)
        ncol, n = int(rng.choice([3, 5, 15])), int(rng.choice([2, 9, 40]))
        tt = np.sort(rng.uniform(0.2, 13.6, ncol)); tt[-1] = 13.8
        m = batch(n, ncol, "tng")
        few = rng.uniform(size=m.shape) < 0.1          # a few tiny masses
        m = np.where(few, 10.0 ** rng.uniform(0.01, 3, m.shape), m)
        m[0, -1] = 1e12
        m = m.astype("f4" if rep % 2 else "f8")
        with np.errstate(all="ignore"):
            L = np.where(m == 0, 0, np.log10(m)).astype(m.dtype)
        tg = np.zeros(n, dtype=[("mpeak", m.dtype), ("mpeakh", m.dtype, (ncol,)), ("mah", "f4", (ncol,))])
        tg["mpeak"], tg["mpeakh"], tg["mah"] = 10 ** L.max(1), L, L + 0.3
        np.save(os.path.join(drn, "tng_diffmah.npy"), tg)
        np.save(os.path.join(drn, "tng_cosmic_time.npy"), tt)
        np.save(os.path.join(drn, "bpl_cosmic_time.npy"), tt * 0.99)
        np.savetxt(os.path.join(drn, "mdpl2_cosmic_time.txt"), tt * 1.01)
        cat = {}
        for nm in ("bpl_diffmah_cens", "bpl_diffmah_sats", "mdpl2_diffmah_cens", "mdpl2_diffmah_sats", "bpl_diffmah_orphans"):
            mm = batch(n, ncol, nm).astype("f4")
            c = np.zeros(n, dtype=[("halo_id", "i8"), ("mpeak_history_main_prog", "f4", (ncol,)), ("mpeak", "f4"), ("mah", "f4", (ncol,))])
            c["halo_id"], c["mpeak_history_main_prog"], c["mah"], c["mpeak"] = rng.integers(0, 2**62, n), mm, mm * 2, mm.max(1)
            cat[nm] = c
            np.save(os.path.join(drn, nm + ".npy"), c)
        inp = dict(loader="load_tng_mahs.load_tng_data")
        r = ctx.must("load_tng_data", q, tng.load_tng_data, drn)
        if r is not None:
            judge("tngm", 0, L, r[1], inp, ilog=True)
            times(r[0], tt, 13.8, np.shape(r[1])[1], inp)
        for mod, nm in ((pub, "load_diffmah_pub_data"), (smod, "scripts/load_mah_data")):
            inp = dict(loader=nm + ".load_tng_data")
            r = ctx.must(nm, q, mod.load_tng_data, data_drn=drn)
            if r is not None:
                judge("tngl", 0, L, r[1], inp, ilog=True, olog=True)
                times(r[2], tt, 13.8, np.shape(r[1])[1], inp)
                evs.append(dict(ev="rows", ids=[str(x) for x in r[0]], want=[str(x) for x in range(n)])); meta.append(inp)
                evs.append(dict(ev="same", clause="minimum-mass", a=fx(r[3]), b=fx(10.0))); meta.append(inp)
            for sim, f, lm, sc in (("bpl", mod.load_bolshoi_data, 10.0, 0.99), ("mdpl2", mod.load_mdpl2_data, 11.25, 1.01)):
                for g in ("cens", "sats"):
                    inp = dict(loader=f"{nm}.{sim}", gal_type=g)
                    r = ctx.must(nm, q, f, g, data_drn=drn)
                    if r is None:
                        continue
                    c = cat[f"{sim}_diffmah_{g}"]
                    judge("publ", 0, c["mpeak_history_main_prog"], r[1], inp, olog=True)
                    times(r[2], tt * sc, 13.8 * sc, np.shape(r[1])[1], inp)
                    evs.append(dict(ev="rows", ids=[str(x) for x in r[0]], want=[str(x) for x in c["halo_id"]])); meta.append(inp)
                    evs.append(dict(ev="same", clause="minimum-mass", a=fx(r[3]), b=fx(lm))); meta.append(inp)
        # Galacticus merger trees: ragged rows
        import h5py
        fn = os.path.join(d, f"gal{rep}.hdf5")
        n = int(rng.choice([1, 4, 13]))
        rag = [10 ** rng.uniform(8, 14, rng.integers(1, 9)) for _ in range(n)]
        tim = [np.sort(rng.uniform(0.1, 13.8, len(x))) for x in rag]
        iso, inf_ = rng.integers(0, 2, n).astype("i4"), rng.uniform(1, 14, n)
        with h5py.File(fn, "w") as f:
            g = f.create_group("Outputs/Output1/nodeData")
            vt = h5py.vlen_dtype(np.dtype("f8"))
            for nm, x in (("haloAccretionHistoryMass", rag), ("haloAccretionHistoryTime", tim)):
                ds = g.create_dataset(nm, (n,), dtype=vt)
                for i in range(n):
                    ds[i] = x[i]
            g["nodeIsIsolated"], g["basicTimeLastIsolated"] = iso, inf_
        r = ctx.must("get_nhalos_tot", gal.get_nhalos_tot, fn)
        if r is not None:
            evs.append(dict(ev="same", clause="number-of-halos", a=int(r), b=n)); meta.append(fn)
        for lo, hi in [(0, None), (0, n), (0, 0), (n, n)] + [tuple(sorted(rng.integers(0, n + 1, 2).tolist())) for _ in range(4)] + [(int(rng.integers(0, n)), None)]:
            inp = dict(loader="galacticus", istart=lo, iend=hi)
            a_ = dict(istart=lo, iend=hi) if hi is not None else dict(istart=lo) if lo else {}
            r = ctx.must("extract_galacticus_mah_tables", gal.extract_galacticus_mah_tables, fn, **a_)
            if r is None:
                continue
            h = n if hi is None else hi
            evs.append(dict(ev="rows", ids=[vf.h31(np.asarray(x, float)) for x in r[0]], want=[vf.h31(x) for x in rag[lo:h]])); meta.append(inp)
            evs.append(dict(ev="rows", ids=[vf.h31(np.asarray(x, float)) for x in r[1]], want=[vf.h31(x) for x in tim[lo:h]])); meta.append(inp)
            evs.append(dict(ev="rows", ids=[int(x) for x in r[2]], want=iso[lo:h].tolist())); meta.append(inp)
            evs.append(dict(ev="rows", ids=fx(np.asarray(r[3], float)), want=fx(inf_[lo:h]))); meta.append(inp)
            ctx.count(1, ("galacticus", lo, hi))
    ctx.trace("LoadersTrace", evs, meta, shards=6)
    ctx.notes["rule"] = "one delivered history; distinct = (catalogue kind, columns)"
    ctx.assumptions += ["haccytrees replaced by a stand-in that returns chunks of stored matrices", "ages compared with astropy (no radiation) to 0.2 per cent"]
