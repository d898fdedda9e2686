"""C22 HDF5 loading (spec/FlatStore*): every request of the model replayed, random files and tuples."""
import hashlib, os, re
from collections import namedtuple
import numpy as np
from vf import h31
CFG = """SPECIFICATION Spec
CONSTANT MaxN = %d
INVARIANTS InOrder WholeIsAll Splits Aligned Emit
CHECK_DEADLOCK FALSE
"""
DT = ["f4", "f8", "i4", "i8", "u8", "u1", "?", "i2", "S5", ">f4", "c8"]


def column(rng, n, dt, shape):
    if dt.startswith("S"):
        return np.array([b"x%d" % v for v in rng.integers(0, 999, int(np.prod((n,) + shape)))], dtype=dt).reshape((n,) + shape)
    if dt == "i8" or dt == "u8":
        return rng.integers(0, 2**62, (n,) + shape).astype(dt)
    a = rng.normal(0, 1e3, (n,) + shape)
    if rng.uniform() < 0.3 and a.size:
        a.flat[rng.integers(0, a.size)] = rng.choice([np.nan, np.inf, -0.0])
    return np.nan_to_num(a, posinf=1).astype(dt) if np.dtype(dt).kind in "iu" else a.astype(dt)


def rows(a):
    return [h31(np.ascontiguousarray(a[i]).tobytes()) for i in range(len(a))]


def kind(a):
    return f"{a.dtype.str}{a.shape[1:]}"


def scal(v):
    a = np.asarray(v)
    return h31((str(a.dtype), a.shape)) ^ h31(a.tobytes())


def run(ctx):
    import h5py
    from diffmah.data_loaders import io_utils
    rng = ctx.rng
    out = ctx.model("FlatStoreModel", CFG % (3 if ctx.quick else 5), workers=1)
    beh = re.findall(r'<<"B", (\d+), (\d), (\d), (\d), "(.)", (-?\d+), (-?\d+)>>', re.sub(r"\s+", " ", out))
    assert len(beh) > 500
    ctx.notes["requests_of_the_model"] = len(beh)
    evs, meta = [], []
    d = os.path.join(ctx.work, "h")
    os.makedirs(d)
    cnt = [0]

    def sha(fn):
        return hashlib.sha256(open(fn, "rb").read()).hexdigest()

    def create(n, names, group, chunked=False):
        cnt[0] += 1
        fn = os.path.join(d, f"f{cnt[0]}.h5")
        cols = {}
        with h5py.File(fn, "w") as f:
            g = f.require_group(group) if group else f
            for k in names:
                dt = str(rng.choice(DT))
                shape = [(), (), (), (3,), (2, 2), (1,)][rng.integers(0, 6)]
                a = column(rng, n, dt, shape)
                g.create_dataset(k, data=a, maxshape=(None,) + shape if chunked else None, chunks=True if chunked else None)
                cols[k] = a
            if group and rng.uniform() < 0.7:      # decoys beside the group
                f["decoy"] = np.arange(4)
        evs.append(dict(ev="create", cols=[dict(k=k, rows=rows(a), kind=kind(a)) for k, a in cols.items()]))
        meta.append(dict(n=n, names=names, group=group))
        return fn, cols

    def load(fn, group, all_, keys, a, b, style):
        kw = {}
        if group:
            kw["dataset"] = group
        if not all_:
            kw["keys"] = keys if style % 2 else tuple(keys)
        if a != 0 or style % 3 == 0:
            kw["istart"] = a
        if b is not None or style % 5 == 0:
            kw["iend"] = b
        if kw.get("istart", 0) is not None and style % 7 == 0 and b is not None:
            kw["istart"], kw["iend"] = np.int64(a), np.int64(b)
        st, r = ctx.call(io_utils.load_flat_hdf5, fn, **kw)
        inp = dict(kw=kw)
        if st != "ok":
            ctx.violation("raises", f"load_flat_hdf5: {r}", inp)
            return
        res = []
        for k, v in r.items():
            v = np.asarray(v)
            res.append(dict(k=k, rows=rows(v) if v.ndim else [-1], kind=kind(v)))
        evs.append(dict(ev="load", all=all_, keys=list(keys), a=a, b=999 if b is None else b, res=res)); meta.append(inp)
        ctx.count(1, (bool(group), all_, len(keys), a < 0, b is None, b is not None and b < 0))

    def after(fn, h):
        try:
            with h5py.File(fn, "r+"):
                op = False
        except OSError:
            op = True
        evs.append(dict(ev="after", changed=sha(fn) != h, open=op)); meta.append(fn)

    # the model's requests, grouped by file
    byfile = {}
    for n, g, al, nk, k1, a, b in beh:
        byfile.setdefault((int(n), int(g)), []).append((int(al), int(nk), k1, int(a), int(b)))
    for (n, g), reqs in sorted(byfile.items()):
        group = [None, ["grp", "data/halos", "a"][rng.integers(0, 3)]][g]
        fn, cols = create(n, ["b", "a"], group)
        h = sha(fn)
        if len(reqs) > 1200:
            reqs = [reqs[i] for i in rng.permutation(len(reqs))[:1200]]
        for i, (al, nk, k1, a, b) in enumerate(reqs):
            keys = [] if al or nk == 0 else [k1] if nk == 1 else ["a", "b"] if k1 == "a" else ["b", "a"]
            load(fn, group, bool(al), keys, a, None if b == 999 else b, i)
        with h5py.File(fn, "r"):      # still loadable while other readers hold it
            load(fn, group, True, [], 0, None, 1)
        after(fn, h)
        os.unlink(fn)
    # columns named by a path: each is returned under the name it was asked for
    for i in range(12 if ctx.quick else 100):
        names = ["s/x", "t/x", "x", "t/u/y"]
        n = int(rng.choice([1, 5, 30]))
        group = [None, "grp", "g/x", "x"][i % 4] if i % 4 != 3 else "t"
        fn, cols = create(n, names, group)
        h = sha(fn)
        for j in range(4):
            keys = [names[q] for q in rng.permutation(len(names))[: rng.integers(1, len(names) + 1)]]
            load(fn, group, False, keys, int(rng.integers(0, n)), None if rng.uniform() < 0.5 else int(rng.integers(0, n + 2)), int(rng.integers(0, 99)))
        after(fn, h)
        os.unlink(fn)
    # random files
    NAMES = ["halo_id", "logm0", "z_col", "Z", "_x", "a1", "a10", "a2", "mah", "t_peak", "x y"]
    for i in range(60 if ctx.quick else 800):
        n = int(rng.choice([0, 1, 2, 5, 17, 200]))
        names = [NAMES[j] for j in rng.permutation(len(NAMES))[: rng.integers(1, 7)]]
        group = [None, None, "grp", "g/sub", "logm0", "h"][rng.integers(0, 6)]
        fn, cols = create(n, names, group, chunked=bool(rng.integers(0, 2)))
        h = sha(fn)
        for j in range(4):
            keys = [names[q] for q in rng.permutation(len(names))[: rng.integers(0, len(names) + 1)]]
            load(fn, group, bool(rng.uniform() < 0.3), keys, int(rng.integers(-n - 2, n + 3)),
                 None if rng.uniform() < 0.3 else int(rng.integers(-n - 2, n + 3)), int(rng.integers(0, 99)))
            if evs[-1]["ev"] == "load" and evs[-1]["all"]:
                evs[-1]["keys"] = []
        after(fn, h)
        os.unlink(fn)
    # tuples
    from diffmah import DEFAULT_MAH_PARAMS
    tuples = [DEFAULT_MAH_PARAMS]
    try:
        from diffmah.diffmahpop_kernels.bimod_censat_params import DEFAULT_DIFFMAHPOP_PARAMS
        tuples.append(DEFAULT_DIFFMAHPOP_PARAMS)
    except ImportError:
        pass
    F = ["zeta", "alpha", "x1", "x10", "x2", "B", "b", "A", "logm0", "mean_frac", "t_peak", "u_x"]
    for i in range(150 if ctx.quick else 3000):
        f = [F[j] for j in rng.permutation(len(F))[: rng.integers(1, len(F) + 1)]]
        v = []
        for k in f:
            m = rng.integers(0, 7)
            v.append([float(rng.normal()), int(rng.integers(-2**62, 2**62)), np.float32(rng.normal()), bool(rng.integers(0, 2)),
                      column(rng, int(rng.integers(1, 5)), str(rng.choice(["f4", "f8", "i4", "i8", "u1", "?"])), [(), (2,)][rng.integers(0, 2)]),
                      np.zeros((0, 3), "f4"), np.array(rng.normal())][m])
        tuples.append(namedtuple("P", f)(*v))
    import jax.numpy as jnp
    tuples.append(namedtuple("J", ["q", "c"])(jnp.arange(3), jnp.float32(2.5)))
    for p in tuples:
        fn = os.path.join(d, "t.h5")
        st, r = ctx.call(io_utils.write_namedtuple_to_hdf5, p, fn)
        if st != "ok":
            ctx.violation("raises", f"write_namedtuple_to_hdf5: {r}", dict(p=repr(p)))
            continue
        h = sha(fn)
        st, q = ctx.call(io_utils.load_namedtuple_from_hdf5, fn)
        if st != "ok":
            ctx.violation("raises", f"load_namedtuple_from_hdf5: {q}", dict(p=repr(p)))
            continue
        evs.append(dict(ev="tuple", wf=list(p._fields), rf=list(q._fields), wv=[scal(x) for x in p], rv=[scal(x) for x in q])); meta.append(dict(wrote=repr(p)[:800], read=repr(q)[:800]))
        after(fn, h)
        ctx.count(1, ("tuple", len(p._fields)))
    ctx.trace("FlatStoreTrace", evs, meta, shards=ctx.blocks(evs, lambda e: e["ev"] in ("create", "tuple"), 6))
    ctx.notes["rule"] = "one load or tuple round trip; distinct = (group, all columns, number of columns, kind of range)"
    ctx.assumptions += ["rows are compared by content hash", "a file is flat: a group holds only columns"]
