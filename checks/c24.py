"""C24 distribution of halos over ranks (spec/Scatter*): all schedules of the model replayed."""
import re
import numpy as np
import vf, haccstub, mpisim, fitlib
CFG = """SPECIFICATION Spec
CONSTANTS R = %d
 N = %d
 Sync = %s
INVARIANTS Correct NoDeadlock Tiles Emit
PROPERTY Terminates
CHECK_DEADLOCK FALSE
"""


def run(ctx):
    rng = ctx.rng
    mpisim.install()
    C = haccstub.Cosmo
    sim = haccstub.Sim("LastJourney", C(0.2648, -1.0, 0.0, 0.7112), 9)
    haccstub.install([sim])
    from diffmah.data_loaders import load_hacc_mahs as hacc
    comm = mpisim.MPI.COMM_WORLD
    scheds = {}
    for R, N in ((1, 2), (2, 3), (3, 5)) if ctx.quick else ((1, 2), (2, 3), (3, 5), (4, 3)):
        for sync in ("FALSE", "TRUE"):
            out = ctx.model("ScatterModel", CFG % (R, N, sync), workers=1, timeout=800)
            S = [[int(x) for x in m.split(",")] for m in re.findall(r'<<"S", \d+, <<([\d, ]+)>>>>', re.sub(r"\s+", " ", out))]
            assert S
            scheds.setdefault(R, []).extend(("sync" if sync == "TRUE" else "eager", x) for x in S)
    ctx.notes["schedules_of_the_model"] = {r: len(v) for r, v in scheds.items()}
    hacc.load_mahs(_put(haccstub, np.ones((1, 9))), "LastJourney", 0, 1)       # compile once
    evs, meta = [], []

    def tags(a, axis):
        """one hash per item along the axis"""
        a = np.asarray(a)
        return [vf.h31(np.ascontiguousarray(np.take(a, i, axis=axis)).tobytes()) for i in range(a.shape[axis])]

    def job(R, mode, chooser, how, arr, axis, label, root=0):
        sim_ = mpisim.Sim(R, chooser, mode)
        res = [None] * R

        def body(r):
            if how == "scatter":
                kw = {}
                if axis != 0:
                    kw["axis"] = axis
                if root:
                    kw["root"] = root
                res[r] = (None, hacc._scatter_nd(arr if r == root else None, comm=comm, **kw))
            else:
                kw = {} if how == "default" else dict(comm=comm)
                res[r] = hacc.load_mahs_per_rank("F", "LastJourney", 0, 1, **kw)
        if how != "scatter":
            haccstub.FOREST["F"] = {"infall_tree_node_mass": arr, "tree_node_mass": arr * 2}
            st, want = ctx.call(hacc.load_mahs, "F", "LastJourney", 0, 1)
            if st != "ok":
                ctx.violation("raises", f"load_mahs: {want}", dict(shape=arr.shape))
                return
            tab, whole = want
        else:
            tab, whole = None, arr
        fitlib.quiet(sim_.run, body)
        inp = dict(ranks=R, mode=mode, decisions=sim_.decisions, how=how, shape=whole.shape, axis=axis, root=root, label=label,
                   errors=sim_.errors, deadlock=sim_.deadlock)
        left = sum(not m["got"] for v in sim_.mail.values() for m in v)
        done = sum(x is not None for x in res) if sim_.ok else -1
        e = dict(ev="job", size=R, done=done, n=int(whole.shape[axis]), parts=[], tabs=[], tab=vf.h31(tab) if tab is not None else 0,
                 kinds=[], kind="", left=left)
        if done == R:
            th = tags(whole, axis)
            where = {}
            for i, h in enumerate(th):
                where.setdefault(h, []).append(i)
            e["kind"] = f"{whole.dtype.str}{[x for j, x in enumerate(whole.shape) if j != axis]}"
            k = 0
            for r in range(R):
                p = np.asarray(res[r][1])
                if p.ndim != whole.ndim:
                    e["kinds"].append("ndim")
                    e["parts"].append([-1])
                    continue
                e["kinds"].append(f"{p.dtype.str}{[x for j, x in enumerate(p.shape) if j != axis]}")
                q = []
                for h in tags(p, axis) if e["kinds"][-1] == e["kind"] else []:
                    c = where.get(h, [-1])
                    q.append(k if k in c else c[0])
                    k += 1
                e["parts"].append(q)
                e["tabs"].append(vf.h31(res[r][0]) if tab is not None else 0)
        evs.append(e); meta.append(inp)
        ctx.count(1, (R, mode, how, whole.ndim, axis, whole.shape[axis] % R if R else 0, whole.shape[axis] < R))

    def arr(n, ndim=2, axis=0, dt=None):
        shape = [int(x) for x in rng.integers(1, 5, ndim)]
        shape[axis] = n
        a = 10.0 ** rng.uniform(9, 15, shape)
        return a.astype(dt or str(rng.choice(["f4", "f8", "i8", "f8"])))
    have = hasattr(hacc, "_scatter_nd")
    for R, S in scheds.items():
        if len(S) > (400 if ctx.quick else 6000):
            S = [S[i] for i in rng.permutation(len(S))[: 400 if ctx.quick else 6000]]
        for mode, s in S:
            n = int(rng.integers(0, 3 * R + 1))
            if have and rng.uniform() < 0.6:
                job(R, mode, mpisim.chooser_from(s, rng), "scatter", arr(n), 0, "model schedule")
            else:
                a = arr(max(n, 1))
                a = np.resize(a, (max(n, 1), 9)) * np.arange(1, max(n, 1) + 1)[:, None]
                job(R, mode, mpisim.chooser_from(s, rng), "default" if rng.uniform() < 0.5 else "comm", a.astype("f4"), 0, "model schedule")
    for i in range(250 if ctx.quick else 5000):
        R = int(rng.integers(1, 14))
        n = int(rng.choice([0, 1, R - 1, R, R + 1, 2 * R, int(rng.integers(0, 60))]))
        order = rng.permutation(R).tolist()
        ch = mpisim.chooser_priority(order, rng, float(rng.choice([1.0, 0.7, 0.0])))
        mode = str(rng.choice(["eager", "sync"]))
        if have and i % 3:
            nd = int(rng.integers(1, 4))
            ax = int(rng.integers(0, nd))
            job(R, mode, ch, "scatter", arr(max(n, 0), nd, ax), ax, "random", int(rng.integers(0, R)) if rng.uniform() < 0.3 else 0)
        else:
            a = 10.0 ** rng.uniform(9, 15, (max(n, 1), 9))
            job(R, mode, ch, "comm" if i % 2 else "default", a.astype(str(rng.choice(["f4", "f8"]))), 0, "random")
    ctx.trace("ScatterTrace", evs, meta, shards=4)
    ctx.notes["rule"] = "one distributed job; distinct = (ranks, send semantics, route, dimensions, axis, remainder, fewer items than ranks)"
    ctx.assumptions += ["mpi4py replaced by an in-process stand-in with both extremes of MPI's send and collective semantics; ranks are threads"]


def _put(stub, a):
    stub.FOREST["F"] = {"infall_tree_node_mass": a}
    return "F"
