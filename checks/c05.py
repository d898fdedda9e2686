"""C05 purity of the public functions (spec/Purity, PurityGen, PurityTrace)."""
import json, os, subprocess, sys
import vf

GEN = """SPECIFICATION GSpec
CONSTANTS Ops = {1, 2}
 Args = {1, 2}
 MaxLen = %d
INVARIANT Inv
PROPERTY Immutable
POSTCONDITION Emit
CHECK_DEADLOCK FALSE
"""


def run(ctx):
    seqs = ctx.generate("PurityGen", GEN % (4 if ctx.quick else 5))
    rng = ctx.rng
    aseed = int(rng.integers(1 << 30))

    nproc, per = (2, 4) if ctx.quick else (5, 24)
    procs = []
    for i in range(nproc):
        c, o = os.path.join(ctx.work, f"c{i}.json"), os.path.join(ctx.work, f"o{i}.json")
        json.dump(dict(argseed=aseed, planseed=int(rng.integers(1 << 30)), rev=i % 2, per=per, seqs=seqs, heavy=not ctx.quick, out=o, tmp=ctx.work),
                  open(c, "w"))
        w = os.path.join(vf.VERIF, "lib", "purity_worker.py")
        procs.append((subprocess.Popen([sys.executable, "-B", w, c], stderr=subprocess.PIPE, text=True), o))
    evs, meta = [], []
    for p, o in procs:
        _, err = p.communicate(timeout=800)
        if p.returncode or not os.path.exists(o):
            raise vf.MachineryError("purity worker: " + err[-1500:])
        r = json.load(open(o))
        evs += r["ev"]
        meta += r["meta"]
    ctx.notes["constants_watched"] = r["consts"]
    names = r["names"]
    calls = [e for e in evs if e["ev"] == "call"]
    ctx.count(len(calls), *[(e["op"], e["args"]) for e in calls])
    ctx.trace("PurityTrace", evs, meta)
    ctx.notes["operations"] = names
    ctx.notes["behaviours_generated"] = len(seqs)
    ctx.notes["rule"] = "calls made; distinct = (operation, argument contents); every pair of calls with equal contents must agree bit for bit, also across processes"
    ctx.assumptions += ["'bit-identical' is judged by 31-bit content hashes", "load_diffmahpop_targets (numpy global random state) excluded"]
