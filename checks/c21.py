"""C21 text and HDF5 output formats (spec/Outline*): every behaviour of the model replayed."""
import io, os, re
from decimal import Decimal
import numpy as np
import fitlib
CFG = """SPECIFICATION Spec
CONSTANTS MaxRows = %d
 Ranks = %d
INVARIANTS Columns RoundLaws Emit
CHECK_DEADLOCK FALSE
"""
NM8 = ["logm0", "logtc", "early_index", "late_index", "t_peak", "loss", "n_points_per_fit", "fit_algo"]


def dec(v):
    v = float(v)
    if v != v or v in (float("inf"), -float("inf")):
        return dict(s=2 if v != v else 3 if v > 0 else -3, hi=1, lo=0, x=0)
    if v == 0:
        return dict(s=1, hi=0, lo=0, x=0)
    m, x = ("%.11e" % abs(v)).split("e")
    m = m.replace(".", "")
    return dict(s=1 if v > 0 else -1, hi=int(m[:6]), lo=int(m[6:]), x=int(x))


def intstr(v):
    """decimal digits of a stored integer value; anything else is shown as it is"""
    a = np.asarray(v)
    return str(int(a)) if a.dtype.kind in "iu" else "not an integer: " + repr(a.dtype.kind) + repr(v)


def token(s):
    isint = re.fullmatch(r"[+-]?\d+", s) is not None
    try:
        d = dec(float(Decimal(s)))
    except Exception:
        return dict(k="x", d=dec(0.0), t=s)
    return dict(k="i" if isint else "f", d=d, t=s)


def val(x, kind):
    return dict(d=dec(x), t="") if kind == "f" else dict(d=dec(0), t=intstr(x))


def run(ctx):
    import h5py
    from diffmah.diffmah_kernels import DEFAULT_MAH_PARAMS
    from diffmah.fitting_helpers import diffmah_fitter_helpers as fh
    rng = ctx.rng
    beh = []
    for mr, rk in (((3, 2),) if ctx.quick else ((4, 2), (3, 4))):
        out = ctx.model("OutlineModel", CFG % (mr, rk), workers=1, timeout=600)
        flat = re.sub(r"\s+", " ", out)
        for w, body in re.findall(r'<< ?"B", (\d), (<<.*?>>) ?>>(?= <<|[^>,]*$| The| \d| Model| Fin)', flat):
            f = [re.findall(r'"(\w+)"', g) for g in re.findall(r"<<([^<>]*)>>", body)]
            if f:
                beh.append((bool(int(w)), f))
    assert len(beh) > 100, len(beh)
    ctx.notes["behaviours"] = len(beh)
    if len(beh) > (420 if ctx.quick else 4000):
        beh = [beh[i] for i in rng.permutation(len(beh))[: 420 if ctx.quick else 4000]]
    # real results by kind
    t = np.linspace(0.5, 13.8, 30)
    pool = {"skip": [], "bfgs": [], "adam": []}
    for i in range(8):
        p = fitlib.random_problem(rng, nmax=20)
        for force in (False, True):
            st, r = ctx.call(fitlib.quiet, fh.diffmah_fitter, p["t"], p["mah"], force_skip_fit=force, **p["kw"])
            if st == "ok":
                pool["skip" if r.skip_fit else "bfgs" if r.code_used == 0 else "adam"].append(r)
    r = fitlib.quiet(fh.diffmah_fitter, t, 10 ** (12 - 3 * (13.8 - t) / 13.8))
    pool["bfgs"].append(r)
    r0 = fitlib.quiet(fh.diffmah_fitter, t, np.zeros(30) + 1e12)
    pool["skip"].append(r0)
    # an empty target list
    pool["skip"].append(fitlib.quiet(fh.diffmah_fitter, t, 10 ** (12 - 3 * (13.8 - t) / 13.8), lgm_min=16.0))
    base = pool["bfgs"][-1]

    def result(kind):
        if kind in ("skip", "bfgs", "adam") and pool[kind] and rng.uniform() < 0.6:
            return pool[kind][rng.integers(0, len(pool[kind]))]
        if kind == "skip":
            return pool["skip"][rng.integers(0, len(pool["skip"]))]
        n = int(rng.integers(1, 40)) if rng.uniform() < 0.96 else int(rng.integers(130, 700))
        lm = np.sort(rng.choice(np.round(rng.uniform(9, 13, 12), 3), n)) if rng.uniform() < 0.8 else rng.uniform(9, 13, n)
        scale = {"bfgs": 1, "adam": 1, "huge": 10.0 ** rng.uniform(5, 30), "tiny": 10.0 ** rng.uniform(-30, -4), "neg": -1}[kind]
        pr = rng.uniform(0.001, 15, 5) * scale
        if kind in ("huge", "tiny") or rng.uniform() < 0.1:   # ties and carries of the six digits
            pr[rng.integers(0, 5)] = float(rng.choice([9.999995e2, 9.9999951e-3, 1e5, 123456.5, 0.0, 9.99999499e7, 2.5, 1e-12]))
        loss = float(abs(scale) * 10.0 ** rng.uniform(-8, 2))
        code = {"bfgs": 0, "adam": 1}.get(kind, int(rng.integers(0, 2)))
        typ = rng.integers(0, 3)
        pb = DEFAULT_MAH_PARAMS._make([float(x) if typ == 0 else np.float64(x) if typ == 1 else np.float32(x) for x in pr])
        return base._replace(p_best=pb, loss_best=loss if typ else np.float32(loss), code_used=code,
                             loss_data=base.loss_data._replace(log_mah_target=lm, t_target=np.sort(rng.uniform(0.5, 13.8, n))))

    evs, meta = [], []
    for w, attr in ((False, "HEADER"), (True, "HEADER_HALO_ID")):
        if hasattr(fh, attr):
            evs.append(dict(ev="header", withid=w, names=getattr(fh, attr).lstrip("#").split())); meta.append(attr)
    ids = [1, 7, 2**31 - 1, 2**31 + 5, 2**53 + 1, 2**62 + 3, 2**63 - 1, 0, 9007199254740993, 10**18 + 1]
    d = os.path.join(ctx.work, "o")
    os.makedirs(d)
    big = [(w, [[k] * 0 for k in "a"] + [[str(rng.choice(["skip", "bfgs", "adam", "huge", "tiny", "neg"])) for _ in range(60)]]) for w in (True, False)]
    for nb, (withid, files) in enumerate(beh + big * (2 if ctx.quick else 20)):
        names = (["halo_id"] if withid else []) + NM8
        rowtoks, parts, bad = [], [], False
        for fno, rows in enumerate(files):
            fn = os.path.join(d, f"r{fno}.dat")
            with open(fn, "w") as fo:
                fo.write(getattr(fh, "HEADER_HALO_ID" if withid else "HEADER", "# names\n"))
                for kind in rows:
                    R = result(kind)
                    kw = {}
                    if withid:
                        h = int(rng.choice(ids)) if rng.uniform() < 0.5 else int(rng.integers(0, 2**63 - 1))
                        kw["halo_id"] = np.int64(h) if rng.uniform() < 0.7 else h
                    line = ctx.must("get_outline", fh.get_outline, R, **kw)
                    if line is None:
                        bad = True
                        continue
                    fo.write(line)
                    tg = np.asarray(R.loss_data.log_mah_target, float)
                    npts = int(np.sum(tg < tg[-1])) if len(tg) else 0
                    u = np.unique(tg)
                    vals = ([val(h, "i")] if withid else []) + [val(x, "f") for x in R.p_best] + [val(R.loss_best, "f")] + \
                        [val(npts, "i"), val(int(R.code_used), "i")]
                    toks = [token(x) for x in line.split()]
                    inp = dict(kind=kind, p_best=[float(x) for x in R.p_best], loss=float(R.loss_best), code=int(R.code_used), line=line, target=tg, **kw)
                    evs.append(dict(ev="line", withid=withid, vals=vals, toks=toks, nlines=line.count("\n") if line.endswith("\n") else -1,
                                    npts=npts, target=[int(np.searchsorted(u, x)) for x in tg]))
                    meta.append(inp)
                    rowtoks.append(toks)
                    ctx.count(1, (withid, kind, len(files), len(rows), typ_of(R)))
                    if not withid and hasattr(fh, "_parse_outline"):
                        pz = ctx.must("_parse_outline", fh._parse_outline, line)
                        if pz is not None:
                            evs.append(dict(ev="parse", toks=toks, fields=list(pz._fields), vals=[val(x, "f" if j < 6 else "i") for j, x in enumerate(pz)]))
                            meta.append(inp)
            try:
                a = fitlib.quiet(np.genfromtxt, fn, dtype="str", ndmin=2)
                if a.size:
                    parts.append(a)
            except Exception as e:
                ctx.violation("line-not-readable", f"text file of lines cannot be read back: {e}", dict(file=open(fn).read()[:2000]))
                bad = True
        if bad or not parts or len({a.shape[1] for a in parts}) != 1 or any(len(tk) != len(names) for tk in rowtoks):
            continue
        arr = np.concatenate(parts)
        h5 = os.path.join(d, "out.h5")
        if os.path.exists(h5):
            os.unlink(h5)
        st, r = ctx.call(fh.write_collated_data, h5, arr)
        if st != "ok":
            ctx.violation("raises", f"write_collated_data: {r}", dict(rows=arr[:5]))
            continue
        with h5py.File(h5, "r") as f:
            cols = {k: f[k][()] for k in f.keys()}
        evs.append(dict(ev="file", withid=withid, names=sorted(cols))); meta.append(dict(rows=arr[:5]))
        for j, n in enumerate(names):
            if n in cols:
                c = np.atleast_1d(cols[n])
                evs.append(dict(ev="column", name=n, toks=[tk[j] for tk in rowtoks], vals=[val(x, "f" if n in NM8[:6] else "i") for x in c]))
                meta.append(dict(column=n, rows=arr[:5], stored=c[:5]))
    ctx.trace("OutlineTrace", evs, meta, shards=6)
    ctx.notes["rule"] = "one line written; distinct = (identifier, kind of row, ranks, rows of the rank, number type)"
    ctx.assumptions += ["finite parameters and loss; identifiers non-negative below 2^63"]


def typ_of(R):
    return type(R.p_best[0]).__name__
