"""C26 collation of chunked fits (spec/Unchunk*): the script at every crash point."""
import io, os, shutil, sys, types, warnings
import numpy as np
import vf, mpisim
CFG = """SPECIFICATION Spec
CONSTANTS S = %d
 C = %d
 MaxRuns = %d
INVARIANTS RowsKept SafeDelete Collated
CHECK_DEADLOCK FALSE
"""
SCRIPT = os.path.join(vf.REPO, "scripts", "fitting_scripts", "unchunk_last_journey_script.py")
NCH = 20


def load_flat(fn, istart=0, iend=None, keys=None, dataset=None):
    import h5py
    with h5py.File(fn, "r") as f:
        return {k: f[k][istart:iend] for k in (f.keys() if keys is None else keys)}


def rows_of(fn):
    """content of every row of a readable file, and its columns"""
    import h5py
    try:
        with h5py.File(fn, "r") as f:
            d = {k: f[k][()] for k in f.keys()}
    except Exception:
        return None, None
    if not d or len({len(v) for v in d.values()}) != 1:
        return None, None
    n = len(next(iter(d.values())))
    ks = sorted(d)
    cols = [(k, np.asarray(d[k]).dtype.kind, list(np.shape(d[k])[1:])) for k in ks]
    return [vf.h31(repr([(k, np.asarray(d[k][i]).tolist()) for k in ks])) for i in range(n)], [str(c) for c in cols]


def run(ctx):
    import h5py
    rng = ctx.rng
    ctx.model("UnchunkModel", CFG % ((2, 2, 2) if ctx.quick else (3, 2, 3)), workers=4)
    ds, dd = types.ModuleType("diffsky"), types.ModuleType("diffsky.data_loaders")
    dd.load_flat_hdf5 = load_flat
    ds.data_loaders = dd
    sys.modules.setdefault("diffsky", ds)
    sys.modules.setdefault("diffsky.data_loaders", dd)
    mpisim.install()
    mpisim.patch()
    code = compile(open(SCRIPT).read(), SCRIPT, "exec")
    evs, meta = [], []
    ncrash = 0

    def tree(d):
        return {os.path.relpath(os.path.join(a, f), d): open(os.path.join(a, f), "rb").read() for a, _, fs in os.walk(d) for f in fs}
    seenrows = {}

    def content(root, t):
        out = []
        for f, b in sorted(t.items()):
            if not f.endswith(".hdf5"):
                continue
            h = vf.h31(b.hex()) if len(b) < 1 else hash(b)
            if h not in seenrows:
                p = os.path.join(ctx.work, "probe.hdf5")
                open(p, "wb").write(b)
                seenrows[h] = rows_of(p)[0]
            if seenrows[h]:
                out.append(seenrows[h])
        return out
    n = 7 if ctx.quick else 60
    for i in range(n):
        root = os.path.join(ctx.work, f"j{i}")
        ind = os.path.join(root, "in")
        same = rng.uniform() < 0.3
        outd = ind if same else os.path.join(root, "out")
        os.makedirs(ind)
        if rng.uniform() < 0.5:
            os.makedirs(outd, exist_ok=True)
        nsv = int(rng.integers(1, 4))
        base = int(rng.choice([0, 1, 7, 9]))
        lo = int(rng.integers(base, base + nsv))
        hi = int(rng.integers(lo + (rng.uniform() < 0.95), base + nsv + 1))
        cols = ["logm0", "logtc", "late_index", "early_index", "t_peak", "loss", "n_points_per_fit", "fit_algo", "extra"][: int(rng.integers(1, 10))]
        has_id, twod = rng.uniform() < 0.5, rng.uniform() < 0.3
        rows, owner, want, wcols = [], [], {}, None
        uid = 0
        for sv in range(base, base + nsv):
            for c in range(NCH):
                m = int(rng.choice([0, 1, 2, 3])) if rng.uniform() < 0.6 else 0
                fn = os.path.join(ind, f"subvol_{sv}_chunk_{c:02d}.hdf5")
                with h5py.File(fn, "w") as f:
                    for k in cols:
                        f[k] = rng.integers(-1, 99, m).astype("i8") if k in ("n_points_per_fit", "fit_algo") else rng.normal(0, 1, m)
                    f["uid"] = np.arange(uid, uid + m)
                    if has_id:
                        f["halo_id"] = rng.integers(0, 2**62, m)
                    if twod:
                        f["mat"] = rng.normal(0, 1, (m, 2)).astype("f4")
                uid += m
                r, wc = rows_of(fn)
                wcols = wcols or wc
                rows += r
                want.setdefault(sv, []).append(r)
                if lo <= sv < hi:
                    owner.append(dict(f=os.path.relpath(fn, root), v=sv))
        others = {f"subvol_{base}_chunk_20.hdf5": b"chunk beyond", f"subvol_{base + 50}_chunk_00.hdf5": b"other subvolume", "readme.txt": b"x", f"subvol_{lo}_chunk_1.hdf5": b"unpadded"}
        for k, b in others.items():
            open(os.path.join(ind, k), "wb").write(b)
        colf = [dict(f=os.path.relpath(os.path.join(outd, f"subvol_{sv}_diffmah_fits.hdf5"), root), v=sv) for sv in range(lo, hi)]
        os.makedirs(os.path.join(root, "cwd"))
        inp0 = dict(istart=lo, iend=hi, present=[base, base + nsv], same_dir=same, columns=wcols)

        def job(watch, inp):
            snaps, last = [], [None]

            def snap(s):
                t = tree(root)
                if t != last[0]:
                    last[0] = t
                    snaps.append(t)
            s = mpisim.Sim(1, lambda run, sim: run[0], "eager", scratch=root, on_event=snap if watch else None)
            argv, cwd, so = sys.argv, os.getcwd(), sys.stdout
            a = [str(lo), str(hi), "-indir", ind, "-outdir", outd]
            if i % 2:
                a = a[2:] + a[:2]
            sys.argv = [SCRIPT] + a
            os.chdir(os.path.join(root, "cwd"))
            sys.stdout = io.StringIO()
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                try:
                    s.run(lambda r: exec(code, {"__name__": "__main__", "__file__": SCRIPT}))
                finally:
                    sys.argv, sys.stdout = argv, so
                    os.chdir(cwd)
            E = [dict(ev="start", owner=owner, cols=colf, rows=rows)]
            for e in s.events:
                f = e.get("f")
                if e["ev"] == "escape":
                    E.append(dict(ev="escape"))
                elif e["ev"] == "remove":
                    E.append(dict(ev="rm", f=f))
                elif e["ev"] == "h5-open" and e["mode"] != "r":
                    E.append(dict(ev="hw", f=f))
                elif e["ev"] == "h5-close" and e["mode"] != "r":
                    E.append(dict(ev="hc", f=f))
                elif e["ev"] == "rename":
                    E.append(dict(ev="ren", f=f, g=e["g"]))
            return s, E, snaps
        s, E, snaps = job(True, inp0)
        inp = dict(inp0, errors=s.errors)
        for t in snaps + [tree(root)]:
            E.append(dict(ev="disk", files=content(root, t)))
            ncrash += 1
        final = tree(root)
        for sv in range(lo, hi):
            r, wc = rows_of(os.path.join(outd, f"subvol_{sv}_diffmah_fits.hdf5"))
            E.append(dict(ev="done", found=r if r is not None else [-1], cols=wc or [], want=want[sv], wcols=wcols))
        keep = lambda t: all(t.get(os.path.relpath(os.path.join(ind, k), root)) == b for k, b in others.items())
        rest = [os.path.relpath(os.path.join(ind, f"subvol_{sv}_chunk_{c:02d}.hdf5"), root) for sv in range(base, base + nsv) if not lo <= sv < hi for c in range(NCH)]
        E.append(dict(ev="finish", ok=s.ok, untouched=keep(final) and all(final.get(f) == snaps[0].get(f) for f in rest)))
        for e in E:
            evs.append(e); meta.append(inp)
        ctx.count(1, (nsv, hi - lo, same, len(wcols)))
        # crash, then the same request again: it may stop, but loses nothing
        pick = rng.choice(len(snaps), min(len(snaps), 5 if ctx.quick else 25), replace=False)
        for k in sorted(pick.tolist()):
            shutil.rmtree(root)
            for f, b in snaps[k].items():
                p = os.path.join(root, f)
                os.makedirs(os.path.dirname(p), exist_ok=True)
                open(p, "wb").write(b)
            os.makedirs(os.path.join(root, "cwd"), exist_ok=True)
            s2, E2, sn2 = job(True, inp0)
            gone = any(o["f"] not in snaps[k] for o in owner)
            ts = sn2[:: max(1, len(sn2) // 12)] + [tree(root)]
            E2 = [e for e in E2 if e["ev"] != "x"] + [dict(ev="disk", files=content(root, t)) for t in ts]
            if not gone:
                E2.append(dict(ev="finish", ok=s2.ok, untouched=keep(tree(root))))
                for sv in range(lo, hi):
                    r, wc = rows_of(os.path.join(outd, f"subvol_{sv}_diffmah_fits.hdf5"))
                    E2.append(dict(ev="done", found=r if r is not None else [-1], cols=wc or [], want=want[sv], wcols=wcols))
            for e in E2:
                evs.append(e); meta.append(dict(inp0, crashed_at=k, errors=s2.errors))
            ctx.count(1, (nsv, "rerun", gone))
        shutil.rmtree(root)
    ctx.notes["crash_points"] = ncrash
    ctx.trace("UnchunkTrace", evs, meta, shards=ctx.blocks(evs, lambda e: e["ev"] == "start", 6))
    ctx.notes["rule"] = "one run of the script; distinct = (subvolumes present, requested, same directory, columns)"
    ctx.assumptions += ["diffsky's loader replaced by a plain reader", "directories without shell metacharacters",
                        "an HDF5 file counts as holding rows when it can be opened and its columns have equal length"]
