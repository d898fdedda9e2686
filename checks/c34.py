"""C34 missing optional packages and inconsistent inputs (spec/Packages*, Refusal*)."""
import json, os, re, subprocess, sys, warnings
import numpy as np
import vf
from vf import fx
CFG = """SPECIFICATION Spec
CONSTANT MaxCalls = %d
INVARIANTS Monotone Core Nameable OnlyOwn Useful Emit
PROPERTY NoMemory
CHECK_DEADLOCK FALSE
"""
RCFG = """SPECIFICATION Spec
INVARIANTS Symmetric Broadcastable Scales Emit
PROPERTY Corrected
CHECK_DEADLOCK FALSE
"""
OPT = ["h5py", "dsps", "haccytrees", "umachine_pyio", "mpi4py", "matplotlib", "astropy"]


def run(ctx):
    rng = ctx.rng
    out = ctx.model("PackagesModel", CFG % (1 if ctx.quick else 2), workers=1, timeout=2000)
    confs = []
    for g in re.findall(r'<<\s*"S",\s*\{([^}]*)\}\s*>>', out):
        have = set(re.findall(r'"(\w+)"', g))
        c = sorted(set(OPT) - have)
        if c and c not in confs:
            confs.append(c)
    assert len(confs) == 127, len(confs)
    confs.sort(key=lambda c: (len(c), c))
    ctx.exhaustive = not ctx.quick
    if ctx.quick:      # each package alone, all of them, some others
        rest = [c for c in confs if 1 < len(c) < 7]
        pick = [c for c in confs if len(c) in (1, 7)] + [rest[i] for i in rng.permutation(len(rest))[:5]]
    else:
        pick = confs
    nw = 6
    jobs = []
    for w in range(nw):
        d = os.path.join(ctx.work, f"pk{w}")
        os.makedirs(d)
        json.dump(dict(configs=pick[w::nw], seed=ctx.seed + w, dir=d, every=4), open(os.path.join(d, "in.json"), "w"))
        env = dict(os.environ, VERIF_REPO=vf.REPO, JAX_PLATFORMS="cpu", PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg")
        jobs.append((d, subprocess.Popen([sys.executable, "-B", os.path.join(vf.VERIF, "lib", "pkg_worker.py"), os.path.join(d, "in.json"), os.path.join(d, "out.json")],
                                         stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, env=env, cwd=d)))
    # ------------------------------------------------------------ refused and flagged inputs (meanwhile)
    evs, meta = [], []
    from diffmah.fitting_helpers import diffmah_fitter_helpers as fh
    from diffmah.data_loaders import load_tng_mahs as lt
    out = ctx.model("RefusalModel", RCFG, workers=1)
    cases = set(re.findall(r'<<\s*"F",\s*<<([\d, ]+)>>,\s*<<([\d, ]+)>>,\s*(\d+)\s*>>', out))
    assert len(cases) == 343, len(cases)
    shp = lambda s: tuple(int(x) for x in s.split(","))

    def outcome(fn):
        with warnings.catch_warnings(record=True) as ws:
            warnings.simplefilter("always")
            r = ctx.call(fn, timeout=120)
        if r[0] == "raise":
            return "refuse", r[1]
        w = [x for x in ws if issubclass(x.category, UserWarning)]
        return ("warn" if w else "accept"), [str(x.message) for x in w]

    def fit(sT, sM, top, skip, how):
        nT, nM = int(np.prod(sT)), int(np.prod(sM))
        t = np.linspace(0.5, 13.8, max(nT, 2))[-nT:].reshape(sT)
        f = np.linspace(-2, 0, nM) if how == "end" else np.concatenate((np.linspace(-2, 0, nM - nM // 2), np.full(nM // 2, -0.3))) if how == "middle" else np.zeros(nM)
        m = (top / 1000 * 10 ** f).reshape(sM)
        o, d = outcome(lambda: fh.diffmah_fitter(t, m, force_skip_fit=skip, nstep=2))
        evs.append(dict(ev="fit", t=list(sT), m=list(sM), top=min(int(round(top)), 2000000000), out=o))
        meta.append(dict(fit=how, shape_t=sT, shape_m=sM, largest_mass=top / 1000, skip=skip, outcome=o, detail=d))
        ctx.count(1, ("fit", sT == sM, top < 1e7, skip, how, len(sT), len(sM)))
    for i, (a, b, top) in enumerate(sorted(cases)):
        sT, sM = shp(a), shp(b)
        if sT == sM and len(sT) > 1:
            continue          # histories are one-dimensional
        top = float(top) if int(top) < 2000000000 else 1e15
        fit(sT, sM, top, sT == sM, ["end", "flat", "middle"][i % 3] if int(np.prod(sM)) > 2 else "flat")
    for i in range(40 if ctx.quick else 400):
        n = int(rng.integers(6, 60))
        top = 10 ** rng.uniform(0, 9) if i % 2 else float(rng.choice([9.99e6, 1.01e7, 12e3, 15e3, 1e15, 1e17]))
        k = n if i % 4 else int(rng.integers(1, 60))
        fit((n,), (k,), round(top), bool(rng.integers(0, 2)) if i % 4 == 1 else True, ["end", "middle", "flat"][i % 3])
    drn = os.path.join(ctx.work, "tng")
    os.makedirs(drn)
    for top in [0.0, 3.0, 4.5, 4.83, 4.8315, 4.9, 5.5, 8.0, 14.0] + rng.uniform(4, 6, 10).tolist():
        if abs(top - 4.83084) < 1e-4:
            continue
        a = np.zeros(4, dtype=[("mpeak", "f8"), ("mpeakh", "f8", (5,))])
        a["mpeakh"] = rng.uniform(0, 1, (4, 5)) * top
        a["mpeakh"][rng.integers(0, 4), rng.integers(0, 5)] = top
        np.save(os.path.join(drn, "tng_diffmah.npy"), a)
        np.save(os.path.join(drn, "tng_cosmic_time.npy"), np.linspace(1, 13.8, 5))
        o, d = outcome(lambda: lt.load_tng_data(drn))
        evs.append(dict(ev="tng", top=fx(top), out=o)); meta.append(dict(largest_log_mass=top, outcome=o, detail=d))
        ctx.count(1, ("tng", o))
    # ------------------------------------------------------------ packages
    for d, p in jobs:
        err = p.communicate(timeout=800 if ctx.quick else 6000)[1]
        if p.returncode:
            raise vf.MachineryError("package worker: " + err[-1500:])
        for e in json.load(open(os.path.join(d, "out.json"))):
            evs.append({k: v for k, v in e.items() if k != "err"})
            meta.append(dict(missing=[q for q in OPT if q not in e["have"]], **{k: e[k] for k in ("m", "f", "ok", "err") if k in e}))
            ctx.count(1, (e["ev"], e.get("f") or e.get("m"), tuple(e["have"])))
    ctx.trace("PackagesTrace", evs, meta, shards=4)
    ctx.notes["rule"] = "one import, one feature call or one questionable input; distinct = (feature or module, packages present) or (kind of input)"
    ctx.notes["package_sets"] = len(pick)
    ctx.assumptions += ["a missing package is one whose import raises ImportError; haccytrees and mpi4py are stand-ins when present",
                        "the two loaders that work on HDF5 files only may refuse to be imported without h5py"]
