"""Interpreters with chosen optional packages missing: imports every module of the package afresh, calls every
feature.  usage: pkg_worker.py IN.json OUT.json; IN = {configs: [[missing...]...], seed, dir}"""
import importlib, importlib.abc, json, os, pkgutil, shutil, sys, types, warnings, zlib
import numpy as np
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import vf
OPT = ["h5py", "dsps", "haccytrees", "umachine_pyio", "mpi4py", "matplotlib", "astropy"]


def main(fin, fout):
    job = json.load(open(fin))
    base = job["dir"]
    vf.setup_repo()
    import matplotlib
    matplotlib.use("Agg")
    import h5py, haccstub, astropy.table, matplotlib.pyplot as plt, matplotlib.cm, matplotlib.lines  # noqa
    import dsps.cosmology.flat_wcdm  # noqa
    import umachine_pyio.load_mock  # noqa
    from umachine_pyio.memmap_array_utils import write_ndarray_to_memmap
    mpi = types.ModuleType("mpi4py")

    class Comm:
        rank, size = 0, 1

        def bcast(self, x, root=0):
            return x
    mpi.MPI = types.ModuleType("mpi4py.MPI")
    mpi.MPI.COMM_WORLD = Comm()
    sys.modules["mpi4py"], sys.modules["mpi4py.MPI"] = mpi, mpi.MPI
    C = haccstub.Cosmo
    haccstub.install([haccstub.Sim("LastJourney", C(0.26, -1.0, 0.0, 0.71), 6)])
    # ------------------------------------------------------------ fixtures
    rng = np.random.default_rng(5)
    inp = os.path.join(base, "in")
    os.makedirs(inp)
    with h5py.File(os.path.join(inp, "flat.h5"), "w") as f:
        f["a"], f["b"] = np.arange(5.0), np.arange(5) * 2
    with h5py.File(os.path.join(inp, "g.h5"), "w") as f:
        g = f.create_group("Outputs/Output1/nodeData")
        for k in ("haloAccretionHistoryMass", "haloAccretionHistoryTime", "nodeIsIsolated", "basicTimeLastIsolated"):
            g[k] = rng.uniform(1, 2, 4)
    a = np.array([0.3, 0.6, 1.0])
    np.savetxt(os.path.join(inp, "scale_list_bpl.dat"), a)
    for col, arr in (("halo_id", np.arange(3)), ("mpeak_history_main_prog", rng.uniform(1e11, 1e12, (3, 3)).astype("f4"))):
        p = os.path.join(inp, "subvol_0", col)
        os.makedirs(p)
        write_ndarray_to_memmap(arr, os.path.join(p, col + ".memmap"))
    haccstub.FOREST["forest"] = {"infall_tree_node_mass": rng.uniform(1e11, 1e12, (4, 6))}
    t = np.zeros(3, dtype=[("mpeak", "f4"), ("mpeakh", "f4", (3,))])
    t["mpeakh"] = rng.uniform(10, 12, (3, 3))
    np.save(os.path.join(inp, "tng_diffmah.npy"), t)
    np.save(os.path.join(inp, "tng_cosmic_time.npy"), np.array([1.0, 5.0, 13.8]))
    b = np.zeros(3, dtype=[("halo_id", "i8"), ("mpeak_history_main_prog", "f4", (3,))])
    b["mpeak_history_main_prog"] = rng.uniform(1e10, 1e12, (3, 3))
    np.save(os.path.join(inp, "bpl_diffmah_cens.npy"), b)
    np.save(os.path.join(inp, "bpl_cosmic_time.npy"), np.array([1.0, 5.0, 13.8]))
    np.save(os.path.join(inp, "um_histories_dr1_bpl_cens_diffmah.npy"), b)
    for w in ("cens", "sats"):
        with h5py.File(os.path.join(inp, f"mean_var_{w}.h5"), "w") as f:
            f["lgm_obs"], f["t_obs"] = np.array([12.0]), np.array([5.0])
            f["t_table"] = np.array([[1.0, 5.0]])
            f["mean_log_mah"], f["std_log_mah"] = np.array([[10.0, 12.0]]), np.array([[0.3, 0.1]])
        np.save(os.path.join(inp, "lgm_12.00_t_5.00_mah_params.%s.npy" % w), rng.uniform(1, 1.2, (4, 5)) * np.array([12, 0.1, 3, 1, 13.0]))
    tab = astropy.table.Table()
    tab["lgm_obs"], tab["t_obs"] = [12.0, 14.0], [13.7, 13.6]
    tab["t_table"] = np.array([[1.0, 7.0, 13.7], [1.0, 7.0, 13.6]])
    tab["mean_log_mah"], tab["std_log_mah"] = np.array([[10.0, 11.0, 12.0], [12.0, 13.0, 14.0]]), np.full((2, 3), 0.2)
    from collections import namedtuple
    NT = namedtuple("NT", ["x", "y"])
    rows = np.array([["1.5"] * 6 + ["3", "0"], ["2.5"] * 6 + ["4", "1"]])
    I = importlib.import_module
    L = "diffmah.data_loaders."

    def pub(m):
        # which file the loader wants is not this property's business: give it whatever it asks for
        real = np.load
        np.load = lambda fn, *a, **k: b if "time" not in os.path.basename(str(fn)) else np.array([1.0, 5.0, 13.8])
        try:
            return m.load_bolshoi_data("cens", data_drn=inp)
        finally:
            np.load = real

    def targets(m, out):
        np.random.seed(3)
        c, s = m.load_diffmahpop_targets(drn=inp, n_sample_min=3)
        return [np.asarray(x[k]) for x in (c, s) for k in sorted(x.colnames)]

    def fig(m, out):
        from diffmah.diffmahpop_kernels.bimod_censat_params import DEFAULT_DIFFMAHPOP_PARAMS as P
        m.plot_singlepanel_mahs_centrals_z0(tab, P, drn=out)
        sys.modules["matplotlib.pyplot"].close("all")
        return sorted(os.listdir(out))

    def pop(m, out):
        from jax import random as jran
        from diffmah.diffmahpop_kernels.bimod_censat_params import DEFAULT_DIFFMAHPOP_PARAMS as P
        return m.mc_diffmah_cenpop(P, np.array([12.0, 13.0]), np.array([10.0, 13.0]), jran.key(1), 1.14)
    tt = np.linspace(0.5, 13.8, 25)
    F = {"evaluate": ("diffmah.diffmah_kernels", lambda m, out: m.mah_halopop(m.DEFAULT_MAH_PARAMS._make([np.array([x, x]) for x in m.DEFAULT_MAH_PARAMS]), tt, 1.14)),
         "fit": ("diffmah.fitting_helpers.diffmah_fitter_helpers", lambda m, out: m.diffmah_fitter(tt, 10 ** (12 - 3 * (13.8 - tt) / 13.8), nstep=3)[:5]),
         "population": ("diffmah.diffmahpop_kernels.mc_bimod_cens", pop),
         "load-hdf5": (L + "io_utils", lambda m, out: m.load_flat_hdf5(os.path.join(inp, "flat.h5"))),
         "write-params": (L + "io_utils", lambda m, out: m.write_namedtuple_to_hdf5(NT(1.0, 2.0), os.path.join(out, "o.h5"))),
         "write-fits": ("diffmah.fitting_helpers.diffmah_fitter_helpers", lambda m, out: m.write_collated_data(os.path.join(out, "o.h5"), rows)),
         "bpl": (L + "load_bpl_um_data", lambda m, out: m.load_bpl_mah_data(inp, [0])),
         "hacc": (L + "load_hacc_mahs", lambda m, out: m.load_mahs("forest", "LastJourney", 0, 1)),
         "hacc-own-comm": (L + "load_hacc_mahs", lambda m, out: m.load_mahs_per_rank("forest", "LastJourney", 0, 1, comm=Comm())),
         "hacc-rank": (L + "load_hacc_mahs", lambda m, out: m.load_mahs_per_rank("forest", "LastJourney", 0, 1)),
         "galacticus": (L + "load_galacticus_eps_mahs", lambda m, out: m.extract_galacticus_mah_tables(os.path.join(inp, "g.h5"))),
         "targets": ("diffmah.diffmahpop_kernels.load_diffmahpop_fitdata", targets),
         "tng": (L + "load_tng_mahs", lambda m, out: m.load_tng_data(inp)),
         "public": (L + "load_diffmah_pub_data", lambda m, out: pub(m)),
         "figure": ("diffmah.diffmahpop_kernels.diagnostics.plot_bestfit_cen_mahs", fig)}
    light = {"population", "figure", "targets"}
    import diffmah
    root = os.path.dirname(os.path.dirname(os.path.abspath(diffmah.__file__)))
    # sub-folders without __init__ are packages too
    mods = []
    for d, ds, fs in os.walk(os.path.join(root, "diffmah")):
        ds[:] = sorted(x for x in ds if x not in ("tests", "__pycache__", "data"))
        for f in sorted(fs):
            if f.endswith(".py") and f != "_version.py":
                q = os.path.relpath(os.path.join(d, f), root)[:-3].replace(os.sep, ".")
                mods.append(q[:-9] if q.endswith(".__init__") else q)
    keep = {k: v for k, v in sys.modules.items() if k.split(".")[0] in OPT}

    def fresh(missing):
        for k in [k for k in sys.modules if k.split(".")[0] in OPT]:
            del sys.modules[k]
        for k in [k for k in sys.modules if k.split(".")[0] == "diffmah" and k != "diffmah._version"]:
            del sys.modules[k]
        for k, v in keep.items():
            sys.modules[k] = None if k.split(".")[0] in missing else v
        for p in missing:
            sys.modules[p] = None

    def names(e):
        s = str(e).lower()
        return [p for p in OPT if p in s]

    def digest(x):
        if isinstance(x, dict):
            return [[str(k), digest(x[k])] for k in sorted(x)]
        if isinstance(x, (tuple, list)):
            return [digest(v) for v in x]
        if x is None or isinstance(x, (str, bool)):
            return repr(x)
        v = np.asarray(x)
        if v.dtype == object:
            return [digest(y) for y in v.tolist()]
        return [str(v.shape), [("%.4e" % y) if np.isfinite(y) else str(y) for y in v.astype(float).ravel()]]
    res, ref = [], {}
    rr = np.random.default_rng(job["seed"])
    for ci, miss in enumerate([[]] + job["configs"]):
        fresh(miss)
        have = [p for p in OPT if p not in miss]
        ok = {}
        for m in (rr.permutation(mods).tolist() if ci else mods):
            try:
                I(m)
                ok[m] = (True, [], "")
            except BaseException as e:
                ok[m] = (False, names(e), f"{type(e).__name__}: {str(e)[:150]}")
                for k in [k for k in sys.modules if k == m]:
                    del sys.modules[k]
            res.append(dict(ev="import", m=m, have=have, ok=ok[m][0], names=ok[m][1], err=ok[m][2]))
        for f in rr.permutation(list(F)).tolist():
            if f in light and ci and ci % job["every"] and not (set(miss) & {"astropy", "matplotlib", "h5py"} and len(miss) == 1):
                continue
            m, fn = F[f]
            out = os.path.join(base, "out")
            shutil.rmtree(out, ignore_errors=True)
            os.makedirs(out)
            r = dict(ev="call", f=f, have=have, imported=ok[m][0], names=[], fp=0, ok=False, err="")
            try:
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    v = fn(I(m), out)
                r.update(ok=True, fp=zlib.crc32(repr(digest(v)).encode()) & 0x3FFFFFFF)
            except BaseException as e:
                r.update(names=names(e), err=f"{type(e).__name__}: {str(e)[:150]}")
            r["left"] = len(os.listdir(out)) if not r["ok"] else 0
            if ci == 0:
                ref[f] = r["fp"]
            r["ref"] = ref.get(f, 0)
            res.append(r)
    json.dump(res, open(fout, "w"))


main(*sys.argv[1:])
