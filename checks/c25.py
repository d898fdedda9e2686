"""C25 the fitting scripts as parallel jobs (spec/Pipeline*): schedules, crashes, re-runs."""
import os, re, shutil
import numpy as np
import vf, mpisim, pipelib
CFG = """SPECIFICATION Spec
CONSTANTS MaxR = %d
 N = %d
 MaxCrash = %d
INVARIANTS ReadsFinished DeletesSaved OutputCorrect Finished NoDeadlock %s
%s
CHECK_DEADLOCK FALSE
"""
KINDS = ["discovery", "lastjourney", "tng", "galacticus", "bolshoi"]


def run(ctx):
    rng = ctx.rng
    ctx.model("PipelineModel", CFG % (2, 2, 1, "", "VIEW view") if ctx.quick else CFG % (3, 3, 2, "", "VIEW view"), workers=6, timeout=850)
    ctx.model("PipelineModel", CFG % (2, 1, 1, "", "PROPERTY Completes\nVIEW view"), workers=4)
    out = ctx.model("PipelineModel", CFG % (4, 5, 0, "Emit", ""), workers=1, simulate="num=%d" % (150 if ctx.quick else 3000),
                    args=("-depth", "90", "-seed", str(ctx.seed)))
    scheds = {}
    for R, m in re.findall(r'<<"S", (\d+), <<([\d, ]+)>>>>', re.sub(r"\s+", " ", out)):
        scheds.setdefault(int(R), []).append([int(x) for x in m.split(",")])
    assert sum(len(v) for v in scheds.values()) > 50
    ctx.notes["schedules_of_the_model"] = {r: len(v) for r, v in scheds.items()}
    pipelib.install()
    mpisim.patch()
    evs, meta, seen = [], [], set()
    snapdir = os.path.join(ctx.work, "snaps")
    nsnap = 0

    def judge(job, s, inp):
        inp = dict(inp, decisions=list(s.decisions), errors=s.errors, deadlock=s.deadlock, **job.desc)
        pe = pipelib.protocol_events(job, s)
        oe = pipelib.output_events(job, seen) if s.ok else []
        fin = dict(ev="finish", ok=s.ok, leftovers=job.leftovers() if s.ok else [], touched=job.touched())
        for e in pe + [fin] + oe:
            evs.append(e); meta.append(inp)

    def sched(R):
        m = rng.integers(0, 4)
        if m == 0 and scheds.get(R):
            return mpisim.chooser_from(scheds[R][rng.integers(0, len(scheds[R]))], rng), "model"
        if m == 1:
            return mpisim.chooser_priority(rng.permutation(R).tolist(), rng, 1.0), "priority"
        if m == 2:     # the collator as early / as late as possible
            o = list(range(R))
            return mpisim.chooser_priority(o if rng.uniform() < 0.5 else o[::-1], rng, 0.95), "extreme"
        return mpisim.chooser_priority(list(range(R)), rng, 0.0), "random"
    # 1. schedules
    n = 26 if ctx.quick else 400
    for kind in KINDS:
        for i in range(n):
            root = os.path.join(ctx.work, f"{kind}{i}")
            os.makedirs(root)
            job = pipelib.Job(kind, rng, root, nmax=6 if i % 3 else 2)
            for rep in range(2):
                R = int(rng.choice([1, 2, 2, 3, 3, 4, 5]))
                mode = str(rng.choice(["eager", "sync"]))
                ch, how = sched(R)
                job.reset()
                s = job.run(R, mode, ch)
                judge(job, s, dict(ranks=R, mode=mode, schedule=how))
                ctx.count(1, (kind, R, mode, how, min(job.desc["halos"]) < R))
            shutil.rmtree(root)
    # 2. crash at every point, then run again with another number of ranks
    nc = 2 if ctx.quick else 25
    for kind in KINDS:
        for i in range(nc):
            root = os.path.join(ctx.work, f"{kind}c{i}")
            os.makedirs(root)
            job = pipelib.Job(kind, rng, root, nmax=2)
            snaps, last = [], [None]

            def snap(s):
                t = job.tree(job.out)
                if t != last[0]:
                    last[0] = t
                    snaps.append(t)
            R = int(rng.choice([2, 3]))
            mode = str(rng.choice(["eager", "sync"]))
            ch, how = sched(R)
            s = job.run(R, mode, ch, on_event=snap)
            judge(job, s, dict(ranks=R, mode=mode, schedule=how, watched=True))
            pick = range(len(snaps)) if len(snaps) <= (14 if ctx.quick else 60) else sorted(rng.choice(len(snaps), 14 if ctx.quick else 60, replace=False).tolist())
            for k in pick:
                shutil.rmtree(job.out)
                os.makedirs(job.out)
                for f, b in snaps[k].items():
                    p = os.path.join(job.out, f)
                    os.makedirs(os.path.dirname(p), exist_ok=True)
                    open(p, "wb").write(b)
                R2 = int(rng.choice([1, 2, 3, 4]))
                mode = str(rng.choice(["eager", "sync"]))
                ch, how = sched(R2)
                s = job.run(R2, mode, ch)
                judge(job, s, dict(ranks=R2, mode=mode, schedule=how, crashed_with=R, left=sorted(snaps[k])))
                nsnap += 1
                ctx.count(1, (kind, R, R2, "crash", len(snaps[k])))
            shutil.rmtree(root)
    ctx.notes["crash_points_replayed"] = nsnap
    ctx.trace("PipelineTrace", evs, meta, shards=ctx.blocks(evs, lambda e: e["ev"] == "start", 6))
    ctx.notes["rule"] = "one run of a script; distinct = (script, ranks, send semantics, schedule, fewer halos than ranks) or (script, ranks before and after the crash, files left)"
    ctx.assumptions += ["mpi4py, haccytrees and the fitter replaced by stand-ins; ranks are threads that switch at communication, file and fit events",
                        "a crash leaves what the operating system has seen: unflushed text is lost, HDF5 files may be incomplete",
                        "output directories without shell metacharacters; at least one halo per unit of work"]
