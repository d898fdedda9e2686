"""Orchestration kit: run TLC on specifications, validate traces recorded from
the real code against them, turn rejected events into violations."""
import json, os, re, shutil, signal, subprocess, sys, tempfile, time, traceback, zlib
from concurrent.futures import ThreadPoolExecutor
import numpy as np

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
EVID = os.path.join(VERIF, "evidence")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NAN, PINF, NINF = 2000000001, 2000000002, -2000000002


class MachineryError(Exception):
    pass


class Hang(Exception):
    pass


# ------------------------------------------------------------------ projection
def fx(x, scale=1e6):
    """real -> fixed point integer(s) of the specification (total)."""
    a = np.asarray(x, dtype=np.float64)
    if a.ndim == 0:
        return _fx1(float(a), scale)
    return [fx(v, scale) for v in a]


def _fx1(v, scale):
    if v != v:
        return NAN
    if v == float("inf"):
        return PINF
    if v == float("-inf"):
        return NINF
    r = v * scale
    if r > 1999999999:
        return 1999999999
    if r < -1999999999:
        return -1999999999
    return int(round(r))


def h31(obj):
    """31-bit content hash of arrays / nested containers / scalars."""
    return zlib.crc32(_bytes(obj)) & 0x7FFFFFFF


def _bytes(o):
    if o is None or isinstance(o, (bool, int, str)):
        return repr(o).encode()
    if isinstance(o, float):
        return np.float64(o).tobytes()
    if isinstance(o, dict):
        return b"{" + b",".join(_bytes(k) + b":" + _bytes(v) for k, v in o.items()) + b"}"
    if isinstance(o, (tuple, list)):
        nm = getattr(o, "_fields", None)
        return b"(" + (repr(nm).encode() if nm else b"") + b",".join(_bytes(v) for v in o) + b")"
    a = np.asarray(o)
    return repr((a.shape, str(a.dtype))).encode() + np.ascontiguousarray(a).tobytes()


class Ctx:
    def __init__(self, prop, tier, seed, level):
        self.prop, self.tier, self.seed, self.level = prop, tier, seed, level
        self.t0 = time.time()
        self.quick = tier == "quick"
        self.rng = np.random.default_rng([seed, int(prop[1:])])
        self.work = tempfile.mkdtemp(prefix=f"vf_{prop}_")
        self.viol = []          # (clause, description, replay payload)
        self.known_hits = []
        self.models = []        # per-TLC-model statistics
        self.states = self.transitions = 0
        self.events = 0
        self.traces = 0
        self.evals = 0
        self.distinct = set()
        self.samples = []
        self.assumptions = []
        self.notes = {}
        self.exhaustive = None
        kf = os.path.join(VERIF, "known_findings.json")
        self.known = [k for k in json.load(open(kf))["known"] if k["property"] == prop]

    # ---------------------------------------------------------------- running code
    def call(self, fn, *a, timeout=120, **k):
        """Run code under test; ('ok', value) or ('raise', 'Type: message')."""
        def onalarm(*_):
            raise Hang(f"no result within {timeout} s")
        old = signal.signal(signal.SIGALRM, onalarm)
        signal.alarm(timeout)
        try:
            return "ok", fn(*a, **k)
        except (KeyboardInterrupt, MemoryError):
            raise
        except BaseException as e:  # code under test failed: an observation, not our error
            return "raise", f"{type(e).__name__}: {str(e)[:300]}"
        finally:
            signal.alarm(0)
            signal.signal(signal.SIGALRM, old)

    def must(self, what, fn, *a, timeout=120, **k):
        """Like call, but an exception is itself a violation; returns value or None."""
        s, v = self.call(fn, *a, timeout=timeout, **k)
        if s == "raise":
            self.violation("raises", f"{what}: {v}", {"what": what, "error": v})
            return None
        return v

    # ---------------------------------------------------------------- TLC
    def _tlc(self, module, cfgtext, env=None, workers="1", args=(), timeout=600, simulate=None, heap="3g"):
        d = tempfile.mkdtemp(dir=self.work)
        cfg = os.path.join(d, "M.cfg")
        open(cfg, "w").write(cfgtext)
        cmd = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", f"-Xmx{heap}", "-Xss64m",
               "-cp", JARS, "tlc2.TLC", "-workers", str(workers), "-config", cfg,
               "-metadir", os.path.join(d, "meta"), "-noGenerateSpecTE", "-deadlock"]
        if simulate:
            cmd += ["-simulate", simulate]
        cmd += list(args) + [os.path.join(SPEC, module + ".tla")]
        e = dict(os.environ)
        e.update(env or {})
        try:
            r = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise MachineryError(f"TLC timed out on {module}")
        finally:
            shutil.rmtree(os.path.join(d, "meta"), ignore_errors=True)
        return r.returncode, r.stdout

    def model(self, module, cfg, env=None, workers=4, timeout=600, simulate=None, args=(), heap="4g"):
        """Check a design-level model; any TLC complaint is an error of ours."""
        t = time.time()
        rc, out = self._tlc(module, cfg, env, workers, args, timeout, simulate, heap)
        m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct", out)
        if simulate:
            ok = rc == 0
            mm = re.findall(r"The number of states generated: ([\d,]+)", out)
            gen = int(mm[-1].replace(",", "")) if mm else 0
            dist = gen
        else:
            ok = rc == 0 and m and "No error has been found" in out
            gen = int(m[-1][0].replace(",", "")) if m else 0
            dist = int(m[-1][1].replace(",", "")) if m else 0
        if not ok:
            raise MachineryError(f"TLC on {module} failed (rc={rc}):\n{re.sub(r'(Parsing file|Semantic proc|Linting).*\n', '', out)[-1500:]}")
        self.states += dist
        self.transitions += gen
        self.models.append(dict(module=module, distinct=dist, generated=gen, s=round(time.time() - t, 1)))
        return out

    @staticmethod
    def blocks(events, start, n):
        """n shards of whole blocks, a block beginning at each event for which start(event)."""
        bl = []
        for i, e in enumerate(events):
            if start(e) or not bl:
                bl.append([])
            bl[-1].append(i)
        out = [[] for _ in range(min(n, len(bl)))]
        for b in sorted(bl, key=len, reverse=True):
            min(out, key=len).extend(b)
        return out

    def trace(self, module, events, meta=None, shards=1, label=None, env=None, timeout=800):
        """Validate recorded events against the trace specification `module`.
        Rejected events become violations.  meta[i]: replay payload for event i."""
        events = list(events)
        if not events:
            raise MachineryError(f"{module}: empty trace")
        label = label or module
        chunks = shards if isinstance(shards, list) else [list(range(len(events)))] if shards <= 1 else \
            [c.tolist() for c in np.array_split(np.arange(len(events)), min(shards, len(events)))]
        cfg = ("SPECIFICATION TraceSpec\nCONSTANTS\n  St0 <- MySt0\n  Clauses <- MyClauses\n  Step <- MyStep\n"
               "CHECK_DEADLOCK FALSE\n")
        t = time.time()

        def one(ix):
            d = tempfile.mkdtemp(dir=self.work)
            tr, vd = os.path.join(d, "t.ndjson"), os.path.join(d, "v.json")
            with open(tr, "w") as f:
                for i in ix:
                    f.write(json.dumps(_j(events[i])) + "\n")
            e = dict(TRACE=tr, VERDICT=vd)
            e.update(env or {})
            rc, out = self._tlc(module, cfg, e, "1", timeout=timeout)
            if rc != 0 or not os.path.exists(vd):
                raise MachineryError(f"trace validation with {module} failed (rc={rc}):\n{re.sub(r'(Parsing file|Semantic proc|Linting).*\n', '', out)[-1500:]}")
            v = json.load(open(vd))
            if v["n"] != len(ix):
                raise MachineryError(f"{module}: judged {v['n']} of {len(ix)} events")
            gen = re.findall(r"([\d,]+) states generated", out)
            os.unlink(tr)
            return [(ix[b["i"] - 1], b["f"]) for b in v["bad"]], int(gen[-1].replace(",", "")) if gen else 0
        with ThreadPoolExecutor(max_workers=min(8, len(chunks))) as ex:
            res = list(ex.map(one, chunks))
        bad = [b for r, _ in res for b in r]
        self.states += sum(g for _, g in res)
        self.transitions += sum(g for _, g in res)
        self.events += len(events)
        self.traces += len(chunks)
        self.models.append(dict(module=module, label=label, events=len(events), rejected=len(bad),
                                s=round(time.time() - t, 1)))
        if len(self.samples) < 6:
            self.samples.append({"spec": module, "event": _clip(events[len(events) // 2])})
        for i, fs in bad:
            ev = events[i]
            self.violation("+".join(sorted(fs)), f"{label}: event {i} breaks {sorted(fs)}",
                           {"spec": module, "event": _j(ev), "meta": _j(meta[i]) if meta else None},
                           key=ev.get("key") if isinstance(ev, dict) else None)
        return bad

    def generate(self, module, cfg, out="OUT", env=None, workers=1, timeout=600, heap="4g", simulate=None, args=()):
        """Run a generator model that serialises behaviours to IOEnv.OUT; returns the JSON."""
        p = os.path.join(self.work, f"gen{len(self.models)}.json")
        e = dict(env or {})
        e[out] = p
        self.model(module, cfg, e, workers, timeout, simulate, args, heap)
        if not os.path.exists(p):
            raise MachineryError(f"{module}: no generated behaviours")
        return json.load(open(p))

    # ---------------------------------------------------------------- results
    def count(self, n, *distinct):
        self.evals += n
        self.distinct.update(distinct)

    def violation(self, clause, desc, payload, key=None):
        for k in self.known:
            if key is not None and k.get("key") == key and k.get("clause") in (None, clause):
                self.known_hits.append(k)
                return
        self.viol.append((clause, desc, payload))

    def finish(self):
        os.makedirs(os.path.join(EVID, "replay"), exist_ok=True)
        for k in {json.dumps(k) for k in self.known_hits}:
            k = json.loads(k)
            print(f"KNOWN-FINDING: property={self.prop} {k['what']}")
        paths = []
        seen = set()
        for n, (clause, desc, payload) in enumerate(self.viol):
            if clause in seen and len(paths) >= 3 or len(paths) >= 10:
                continue
            seen.add(clause)
            p = os.path.join(EVID, "replay", f"{self.prop}-{n}.json")
            json.dump(dict(property=self.prop, clause=clause, description=desc, seed=self.seed, tier=self.tier,
                           payload=_j(payload),
                           how="VERIF_SEED=%d VERIF_TIER=%s bash run.sh %s re-runs the same inputs; the payload "
                               "holds the judged event and the inputs" % (self.seed, self.tier, self.prop)),
                      open(p, "w"), indent=1)
            paths.append(p)
            print(f"VIOLATION property={self.prop} replay={p}  [{clause}] {desc}"[:600])
        cov = dict(states=self.states, transitions=self.transitions,
                   traces_validated_against_impl=self.traces,
                   events_validated=self.events,
                   models=self.models, samples=self.samples or ["(none)"], **self.notes)
        if self.evals:
            cov["evaluations"] = self.evals
        if self.distinct:
            cov["distinct_nontrivial"] = len(self.distinct)
        if self.exhaustive is not None:
            cov["exhaustive"] = self.exhaustive
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=self.level, coverage=cov,
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2), violations=len(self.viol))
        json.dump(ev, open(os.path.join(EVID, f"{self.prop}.json"), "w"), indent=1)
        return 1 if self.viol else 0

    def close(self):
        shutil.rmtree(self.work, ignore_errors=True)


def _clip(o, n=900):
    s = json.dumps(_j(o))
    return json.loads(s) if len(s) <= n else s[:n] + "..."


def _j(o):
    if isinstance(o, dict):
        return {str(k): _j(v) for k, v in o.items()}
    if isinstance(o, (list, tuple)):
        return [_j(v) for v in o]
    if isinstance(o, (np.bool_,)):
        return bool(o)
    if isinstance(o, np.integer):
        return int(o)
    if isinstance(o, np.floating):
        return float(o)
    if isinstance(o, np.ndarray):
        return _j(o.tolist())
    if o is None or isinstance(o, (bool, int, float, str)):
        return o
    try:
        return _j(np.asarray(o).tolist())
    except Exception:
        return repr(o)


def setup_repo():
    """Make the code under test importable from /repo's working tree only."""
    import types
    os.environ.setdefault("JAX_PLATFORMS", "cpu")
    os.environ.setdefault("MPLBACKEND", "Agg")
    sys.dont_write_bytecode = True
    sys.path[:] = [REPO] + [p for p in sys.path if p not in (REPO,)]
    if not os.path.exists(os.path.join(REPO, "diffmah", "_version.py")):
        m = types.ModuleType("diffmah._version")
        m.__version__ = m.version = "0.0"
        sys.modules["diffmah._version"] = m
    import diffmah
    assert os.path.realpath(diffmah.__file__).startswith(os.path.realpath(REPO) + os.sep), diffmah.__file__
