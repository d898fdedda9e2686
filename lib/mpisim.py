"""Deterministic stand-in for an MPI job: ranks are threads, one runs at a time,
a scheduler decides at every communication, file and fit event which continues.

mode "eager": sends and one-sided collectives complete as early as MPI allows;
mode "sync":  as late as MPI allows (sends wait for the receiver, collectives for all).
Deletions, renames and writes outside the scratch directory are recorded and refused.
"""
import builtins, copy, glob, io, os, pickle, shlex, shutil, stat, subprocess, sys, threading, types

TL = threading.local()
CUR = None          # the running simulation
ROOTDIR = None      # scratch directory


class Abort(BaseException):
    pass


class Escape(OSError):
    pass


def _rank():
    return getattr(TL, "rank", None)


class Sim:
    def __init__(self, size, chooser, mode="eager", scratch=None, on_event=None, fine=True):
        self.size, self.chooser, self.mode = size, chooser, mode
        self.scratch = os.path.realpath(scratch) if scratch else None
        self.on_event = on_event
        self.events = []
        self.state = ["new"] * size
        self.cond = [None] * size
        self.go = [threading.Semaphore(0) for _ in range(size)]
        self.back = threading.Semaphore(0)
        self.aborting = False
        self.errors = []
        self.deadlock = None
        self.coll = {}                      # sequence number -> record
        self.seq = [0] * size
        self.mail = {}                      # (src, dst) -> list of messages
        self.result = [None] * size
        self.decisions = []

    # ------------------------------------------------------------ scheduling
    def point(self, label):
        r = _rank()
        if r is None or CUR is not self:
            return
        self._yield("ready", None, label)

    def wait(self, pred, label):
        self._yield("blocked", pred, label)

    def _yield(self, st, pred, label):
        r = _rank()
        if self.aborting:
            raise Abort()
        self.state[r], self.cond[r] = st, pred
        self.label = (r, label)
        self.back.release()
        self.go[r].acquire()
        if self.aborting:
            raise Abort()
        self.state[r] = "running"

    def log(self, ev, **k):
        self.events.append(dict(ev=ev, r=-1 if _rank() is None else _rank(), **k))

    def run(self, body, timeout=120):
        global CUR
        assert CUR is None
        CUR = self

        def main(r):
            TL.rank = r
            self.go[r].acquire()
            try:
                if self.aborting:
                    raise Abort()
                self.result[r] = body(r)
                self.log("exit")
            except Abort:
                pass
            except SystemExit as e:
                if e.code not in (0, None):
                    self.errors.append((r, f"SystemExit: {e.code}"))
                else:
                    self.log("exit")
            except BaseException as e:
                import traceback
                tb = traceback.extract_tb(e.__traceback__)
                self.errors.append((r, f"{type(e).__name__}: {str(e)[:300]} (line {tb[-1].lineno} of {os.path.basename(tb[-1].filename)})"))
            self.state[r] = "done"
            TL.rank = None
            self.back.release()
        old = threading.stack_size()
        ths = [threading.Thread(target=main, args=(r,), daemon=True) for r in range(self.size)]
        self.state = ["ready"] * self.size
        for t in ths:
            t.start()
        try:
            while True:
                alive = [r for r in range(self.size) if self.state[r] != "done"]
                if not alive:
                    break
                if self.errors and not self.aborting:
                    self.aborting = True
                if self.aborting:
                    run = alive
                else:
                    run = [r for r in alive if self.state[r] == "ready" or (self.state[r] == "blocked" and self.cond[r]())]
                    if not run:
                        self.deadlock = [(r, self.state[r]) for r in alive]
                        self.aborting = True
                        continue
                if self.on_event and not self.aborting:
                    self.on_event(self)
                r = run[0] if self.aborting or len(run) == 1 else self.chooser(run, self)
                self.decisions.append(r)
                self.go[r].release()
                if not self.back.acquire(timeout=timeout):
                    self.errors.append((r, "no progress: rank hangs"))
                    self.aborting = True
                    break
        finally:
            CUR = None
            for t in ths:
                t.join(0.5 if self.aborting else 5)
        return self

    @property
    def ok(self):
        return not self.errors and self.deadlock is None

    # ------------------------------------------------------------ communication
    def collective(self, name, root, value, need):
        """need(record) -> may this rank leave; returns the record"""
        r = _rank()
        self.point(name)
        k = self.seq[r]
        self.seq[r] += 1
        c = self.coll.setdefault(k, dict(name=name, root=root, vals={}, left=0))
        if c["name"] != name or c["root"] != root:
            raise RuntimeError(f"collective mismatch: rank {r} calls {name}(root={root}) while another rank called {c['name']}(root={c['root']})")
        c["vals"][r] = pickle.dumps(value, -1)
        self.log("coll", name=name, k=k)
        full = lambda: len(c["vals"]) == self.size
        pred = full if self.mode == "sync" else (lambda: need(c))
        if not pred():
            self.wait(pred, name)
        self.log("collend", name=name, k=k)
        return c


def chooser_from(schedule, rng):
    """follow a schedule (ranks); ranks that cannot move are skipped; then random"""
    it = iter(list(schedule))

    def choose(run, sim):
        for r in it:
            if r in run:
                return r
        return run[int(rng.integers(0, len(run)))]
    return choose


def chooser_priority(order, rng, burst=1.0):
    """prefer ranks in the given order (an extreme schedule)"""
    def choose(run, sim):
        if rng.uniform() > burst:
            return run[int(rng.integers(0, len(run)))]
        return min(run, key=order.index)
    return choose


class Request:
    def __init__(self, fn):
        self.fn, self.done = fn, False

    def wait(self, *a):
        if not self.done:
            self.v, self.done = self.fn(), True
        return self.v
    Wait = wait

    def test(self):
        return self.done, None


class Comm:
    """rank-dependent communicator"""
    @property
    def s(self):
        if CUR is None or _rank() is None:
            raise RuntimeError("communicator used outside of a job")
        return CUR
    rank = property(lambda self: self.Get_rank())
    size = property(lambda self: self.Get_size())

    def Get_rank(self):
        return 0 if CUR is None else _rank()

    def Get_size(self):
        return 1 if CUR is None else CUR.size

    def Barrier(self):
        s = self.s
        s.collective("Barrier", -1, None, lambda c: len(c["vals"]) == s.size)
    barrier = Barrier

    def _post(self, obj, dest, tag, name):
        s = self.s
        s.point(name)
        if not (0 <= dest < s.size):
            raise RuntimeError(f"invalid destination {dest}")
        m = dict(data=pickle.dumps(obj, -1), tag=tag, got=False)
        s.mail.setdefault((_rank(), dest), []).append(m)
        s.log("send", to=int(dest))
        return m

    def send(self, obj, dest, tag=0):
        m = self._post(obj, dest, tag, "send")
        if self.s.mode == "sync" and not m["got"]:
            self.s.wait(lambda: m["got"], "send")
    ssend = send

    def isend(self, obj, dest, tag=0):
        m = self._post(obj, dest, tag, "isend")
        s = self.s

        def w():
            if s.mode == "sync" and not m["got"]:
                s.wait(lambda: m["got"], "wait")
        return Request(w)

    def recv(self, buf=None, source=-1, tag=-1, status=None):
        s, r = self.s, _rank()
        s.point("recv")

        def find():
            for q in ([source] if source >= 0 else range(s.size)):
                for m in s.mail.get((q, r), []):
                    if not m["got"] and (tag < 0 or m["tag"] == tag):
                        return q, m
            return None
        if find() is None:
            s.wait(lambda: find() is not None, "recv")
        q, m = find()
        m["got"] = True
        s.log("recv", frm=int(q))
        return pickle.loads(m["data"])

    def irecv(self, buf=None, source=-1, tag=-1):
        return Request(lambda: self.recv(source=source, tag=tag))

    def sendrecv(self, obj, dest, sendtag=0, recvbuf=None, source=-1, recvtag=-1, status=None):
        m = self._post(obj, dest, sendtag, "sendrecv")
        return self.recv(source=source, tag=recvtag)

    def bcast(self, obj=None, root=0):
        c = self.s.collective("bcast", root, obj if _rank() == root else None, lambda c: root in c["vals"])
        return obj if _rank() == root else pickle.loads(c["vals"][root])

    def Bcast(self, buf, root=0):
        c = self.s.collective("Bcast", root, buf if _rank() == root else None, lambda c: root in c["vals"])
        if _rank() != root:
            buf[...] = pickle.loads(c["vals"][root])

    def scatter(self, sendobj=None, root=0):
        r = _rank()
        if r == root and len(sendobj) != self.s.size:
            raise ValueError(f"expecting {self.s.size} items, got {len(sendobj)}")
        c = self.s.collective("scatter", root, list(sendobj) if r == root else None, lambda c: root in c["vals"])
        return pickle.loads(c["vals"][root])[r]

    def gather(self, sendobj, root=0):
        s, r = self.s, _rank()
        c = s.collective("gather", root, sendobj, lambda c: r != root or len(c["vals"]) == s.size)
        return [pickle.loads(c["vals"][q]) for q in range(s.size)] if r == root else None

    def allgather(self, sendobj):
        s = self.s
        c = s.collective("allgather", -1, sendobj, lambda c: len(c["vals"]) == s.size)
        return [pickle.loads(c["vals"][q]) for q in range(s.size)]

    def alltoall(self, sendobj):
        s, r = self.s, _rank()
        c = s.collective("alltoall", -1, sendobj, lambda c: len(c["vals"]) == s.size)
        return [pickle.loads(c["vals"][q])[r] for q in range(s.size)]

    def reduce(self, sendobj, op=None, root=0):
        s, r = self.s, _rank()
        c = s.collective("reduce", root, sendobj, lambda c: r != root or len(c["vals"]) == s.size)
        return self._fold(c, op) if r == root else None

    def allreduce(self, sendobj, op=None):
        s = self.s
        c = s.collective("allreduce", -1, sendobj, lambda c: len(c["vals"]) == s.size)
        return self._fold(c, op)

    def _fold(self, c, op):
        op = op or MPI.SUM
        v = [pickle.loads(c["vals"][q]) for q in range(self.s.size)]
        a = v[0]
        for b in v[1:]:
            a = op(a, b)
        return a

    def Abort(self, code=1):
        raise RuntimeError("Abort called")


MPI = types.ModuleType("mpi4py.MPI")
MPI.COMM_WORLD = Comm()
MPI.SUM = lambda a, b: a + b
MPI.PROD = lambda a, b: a * b
MPI.MAX = lambda a, b: b if b > a else a
MPI.MIN = lambda a, b: b if b < a else a
MPI.LAND = lambda a, b: a and b
MPI.LOR = lambda a, b: a or b
MPI.ANY_SOURCE, MPI.ANY_TAG = -1, -1
MPI.Comm = MPI.Intracomm = Comm
MPI.Wtime = lambda: 0.0
MPI.Is_initialized = lambda: True
MPI.Finalize = lambda: None


def install():
    m = types.ModuleType("mpi4py")
    m.MPI = MPI
    sys.modules["mpi4py"] = m
    sys.modules["mpi4py.MPI"] = MPI


# ------------------------------------------------------------------ file events
def inside(p):
    try:
        q = os.path.realpath(os.path.abspath(os.fspath(p) if not isinstance(p, bytes) else p.decode()))
    except TypeError:
        return False
    return CUR is not None and CUR.scratch is not None and (q == CUR.scratch or q.startswith(CUR.scratch + os.sep))


def rel(p):
    return os.path.relpath(os.path.realpath(os.path.abspath(os.fspath(p) if not isinstance(p, bytes) else p.decode())), CUR.scratch)


def open_for_write(path):
    """is the file open for writing anywhere in this process"""
    path = os.path.realpath(path)
    for fd in os.listdir("/proc/self/fd"):
        try:
            if os.readlink("/proc/self/fd/" + fd) != path:
                continue
            for l in io.open_code("/proc/self/fdinfo/" + fd).read().decode().splitlines():
                if l.startswith("flags:"):
                    if int(l.split()[1], 8) & 3:
                        return True
        except OSError:
            pass
    return False


def refuse(what, p):
    CUR.log("escape", what=what, path=str(p)[:200])
    raise Escape(f"{what} outside the job's directory: {p}")


def audit(event, args):
    if CUR is None or _rank() is None or getattr(TL, "off", False):
        return
    if event == "open":
        p, mode, flags = args
        if isinstance(p, int):
            return
        w = bool(flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND)) if isinstance(flags, int) else "r" not in (mode or "r")
        if not inside(p):
            if w and not str(p).startswith("/dev/"):
                refuse("write", p)
            return
        TL.off = True
        try:
            CUR.point("open")
            trunc = bool(flags & os.O_TRUNC) if isinstance(flags, int) else True
            if w:
                CUR.log("open-w", f=rel(p), trunc=trunc)
            else:
                CUR.log("open-r", f=rel(p), busy=open_for_write(p), exists=os.path.exists(p))
        finally:
            TL.off = False
    elif event in ("os.remove", "os.rmdir", "os.unlink", "shutil.rmtree", "os.truncate"):
        if not inside(args[0]):
            refuse(event, args[0])
        TL.off = True
        try:
            CUR.point("remove")
            if event == "shutil.rmtree":
                for q in glob.glob(os.path.join(args[0], "**"), recursive=True):
                    if os.path.isfile(q):
                        CUR.log("remove", f=rel(q), busy=open_for_write(q))
            elif os.path.exists(args[0]):
                CUR.log("remove", f=rel(args[0]), busy=open_for_write(args[0]))
        finally:
            TL.off = False
    elif event in ("os.rename", "shutil.move", "shutil.copyfile"):
        if event == "os.rename":
            for q in args[:2]:
                if not inside(q):
                    refuse(event, q)
            CUR.point("rename")
            CUR.log("rename", f=rel(args[0]), g=rel(args[1]))
    elif event in ("subprocess.Popen", "os.system", "os.exec", "os.posix_spawn", "os.fork"):
        refuse(event, args[:2])


_installed = False


def shell(cmd, isshell, cwd=None):
    """emulates the file commands a script may give to a shell; refuses the rest"""
    if isinstance(cmd, (list, tuple)):
        cmds = [list(map(str, cmd))]
        isshell = isshell and False
    else:
        cmds, cur = [], []
        for tok in shlex.split(cmd, posix=True):
            if tok in ("&&", ";", "||"):
                cmds.append(cur); cur = []
            else:
                cur.append(tok)
        cmds.append(cur)
    rc = 0
    base = cwd or os.getcwd()
    for c in cmds:
        if not c:
            continue
        name, rest = os.path.basename(c[0]), c[1:]
        opts = [x for x in rest if x.startswith("-")]
        paths = [x for x in rest if not x.startswith("-")]
        ex = []
        for p in paths:
            q = os.path.join(base, p)
            hits = sorted(glob.glob(q)) if isshell or isinstance(cmd, str) else []
            ex += hits or [q]
        if name == "rm":
            for p in ex:
                if not inside(p):
                    CUR.log("escape", what="rm", path=p[:200])
                    rc = 1
                    continue
                if os.path.isdir(p):
                    if any("r" in o or "R" in o for o in opts):
                        shutil.rmtree(p)
                    else:
                        rc = 1
                elif os.path.lexists(p):
                    os.remove(p)
                elif not any("f" in o for o in opts):
                    rc = 1
        elif name in ("mv", "cp"):
            for p in ex:
                if not inside(p):
                    refuse(name, p)
            for p in ex[:-1]:
                (shutil.move if name == "mv" else shutil.copy)(p, ex[-1])
        elif name in ("echo", "true", "ls", "sync", "sleep", "mkdir"):
            if name == "mkdir":
                for p in ex:
                    os.makedirs(p, exist_ok=True)
        else:
            raise NotImplementedError("shell command not emulated: " + str(c))
    return rc


def patch():
    """install the audit hook and the stand-ins (once per process)"""
    global _installed
    if _installed:
        return
    _installed = True
    import h5py
    sys.addaudithook(audit)
    real_system, RealPopen, RealFile = os.system, subprocess.Popen, h5py.File

    def system(cmd):
        if CUR is None or _rank() is None:
            return real_system(cmd)
        CUR.point("system")
        return shell(cmd, True) << 8
    os.system = system

    class Popen(RealPopen):
        def __new__(cls, *a, **k):
            if CUR is None or _rank() is None:
                return RealPopen(*a, **k)
            return object.__new__(FakeProc)
    class FakeProc:
        def __init__(self, *a, **k):
            args = a[0] if a else k.get("args")
            CUR.point("popen")
            self.args = args
            self.returncode = shell(args, k.get("shell", False), k.get("cwd"))
            t = k.get("text") or k.get("universal_newlines")
            self.stdout = self.stderr = None
            self._o = "" if t else b""
            self._cap = k.get("stdout") is not None
            self.pid = 0
        def communicate(self, *a, **k):
            return (self._o if self._cap else None), None
        def wait(self, *a, **k):
            return self.returncode
        def poll(self):
            return self.returncode
        def kill(self):
            pass
        def __enter__(self):
            return self
        def __exit__(self, *a):
            pass

    def factory(*a, **k):
        if CUR is None or _rank() is None:
            return RealPopen(*a, **k)
        return FakeProc(*a, **k)
    subprocess.Popen = factory

    class File(RealFile):
        def __init__(self, name, mode="r", *a, **k):
            self._vf = None
            if CUR is not None and _rank() is not None and isinstance(name, (str, bytes, os.PathLike)):
                if not inside(name):
                    if mode != "r":
                        refuse("write", name)
                else:
                    CUR.point("h5open")
                    self._vf = (rel(name), mode)
                    CUR.log("h5-open", f=rel(name), mode=mode, busy=open_for_write(name))
            super().__init__(name, mode, *a, **k)

        def __setitem__(self, k, v):
            if CUR is not None and _rank() is not None and self._vf:
                CUR.point("h5set")
            super().__setitem__(k, v)

        def close(self):
            if CUR is not None and _rank() is not None and self._vf and self.id:
                if self._vf[1] != "r" and not CUR.aborting:
                    CUR.point("h5close")
                super().close()
                CUR.log("h5-close", f=self._vf[0], mode=self._vf[1])
                return
            super().close()
    h5py.File = File
