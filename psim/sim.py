"""Deterministic simulator for the station software: virtual clock, one-thread-at-a-time seeded scheduler, simulated disk, network and stdin.

install() (before the repository's modules are imported) puts pass-through wrappers over clocks and lock factories; activate(sim) in a forked
child makes them, and files, sockets, HTTP and threads, belong to the simulation.  One Sim object is one boot of the station.
"""
import _thread, builtins, datetime as dtm, dis, errno, gc, io, json, os, queue, random, socket as socketm, stat as statm, sys, threading, time as timem

SIM = None
ROOT = "/vsim"
ERR = {k: getattr(errno, k) for k in dir(errno) if k.startswith("E")}
R = dict(time=timem.time, sleep=timem.sleep, monotonic=timem.monotonic, perf_counter=timem.perf_counter, gmtime=timem.gmtime, localtime=timem.localtime,
         time_ns=timem.time_ns, monotonic_ns=timem.monotonic_ns, strftime=timem.strftime, ctime=timem.ctime, datetime=dtm.datetime, date=dtm.date,
         open=builtins.open, lock=_thread.allocate_lock, rlock=threading.RLock, thread_start=threading.Thread.start, thread_join=threading.Thread.join,
         thread_alive=threading.Thread.is_alive, current=threading.current_thread)


NOP = dis.opmap["NOP"]


class Stop(BaseException):
    """the simulation has ended; the task must not run again"""


# ------------------------------------------------------------------------------------------------ clocks
def on():
    return SIM is not None


def wall():
    return SIM.wall() if SIM else R["time"]()


def _sleep(s):
    if SIM and SIM.in_task():
        if s < 0:
            raise ValueError("sleep length must be non-negative")
        SIM.sleep(s)
    elif not SIM:
        R["sleep"](s)


def _opt(name):
    f = R[name]

    def g(*a):
        if SIM and not a:
            return f(SIM.wall())
        return f(*a)
    return g


class _Meta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, R["datetime"]) if cls is SimDateTime else type.__instancecheck__(cls, o)

    def __subclasscheck__(cls, o):
        return issubclass(o, R["datetime"]) if cls is SimDateTime else type.__subclasscheck__(cls, o)


class SimDateTime(R["datetime"], metaclass=_Meta):
    @classmethod
    def now(cls, tz=None):
        return cls.fromtimestamp(SIM.wall(), tz) if SIM else R["datetime"].now(tz)

    @classmethod
    def utcnow(cls):
        if SIM:
            return cls.fromtimestamp(SIM.wall(), dtm.timezone.utc).replace(tzinfo=None)
        return R["datetime"].utcnow()

    @classmethod
    def today(cls):
        return cls.now()


class SimDate(R["date"]):
    @classmethod
    def today(cls):
        return R["datetime"].fromtimestamp(SIM.wall()).date() if SIM else R["date"].today()


def install():
    timem.time = lambda: wall()
    timem.time_ns = lambda: int(SIM.wall() * 1e9) if SIM else R["time_ns"]()
    timem.monotonic = lambda: SIM.now + 1000.0 if SIM else R["monotonic"]()
    timem.monotonic_ns = lambda: int((SIM.now + 1000.0) * 1e9) if SIM else R["monotonic_ns"]()
    timem.perf_counter = lambda: SIM.now + 1000.0 if SIM else R["perf_counter"]()
    timem.sleep = _sleep
    timem.gmtime, timem.localtime, timem.ctime = _opt("gmtime"), _opt("localtime"), _opt("ctime")
    dtm.datetime = SimDateTime
    threading.Lock = threading._allocate_lock = lambda: SimLock() if SIM else R["lock"]()
    threading.RLock = lambda *a: SimRLock() if SIM else R["rlock"](*a)
    queue.time = threading._time = lambda: SIM.now + 1000.0 if SIM else R["monotonic"]()
    threading.Thread.start = _start
    threading.Thread.join = _join
    threading.Thread.is_alive = _alive


# ------------------------------------------------------------------------------------------------ locks and threads
class SimLock:
    def __init__(self):
        self._l, self._w = False, []

    def acquire(self, blocking=True, timeout=-1):
        s = SIM
        if s is None or not s.in_task():
            if self._l and blocking:
                raise RuntimeError("simulated lock outside a task")
            r = not self._l
            self._l = True
            return r
        end = None if timeout is None or timeout < 0 else s.now + timeout
        while self._l:
            if not blocking or (end is not None and s.now >= end):
                return False
            s.block(self._w, end)
        self._l = True
        return True

    acquire_lock = acquire

    def release(self):
        if not self._l:
            raise RuntimeError("release unlocked lock")
        self._l = False
        if SIM:
            SIM.wake(self._w)

    release_lock = release

    def locked(self):
        return self._l

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()

    def _at_fork_reinit(self):
        self._l = False


class SimRLock:
    def __init__(self):
        self._b, self._o, self._n = SimLock(), None, 0

    def acquire(self, blocking=True, timeout=-1):
        me = SIM.cur if SIM else None
        if self._o is me and self._n:
            self._n += 1
            return True
        if self._b.acquire(blocking, timeout):
            self._o, self._n = me, 1
            return True
        return False

    def release(self):
        if not self._n:
            raise RuntimeError("cannot release un-acquired lock")
        self._n -= 1
        if not self._n:
            self._o = None
            self._b.release()

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()

    def _release_save(self):
        st = (self._n, self._o)
        self._n, self._o = 0, None
        self._b.release()
        return st

    def _acquire_restore(self, st):
        self._b.acquire()
        self._n, self._o = st

    def _is_owned(self):
        return self._n > 0 and self._o is (SIM.cur if SIM else None)

    def _at_fork_reinit(self):
        self.__init__()


def _start(self):
    s = SIM
    if s is None:
        return R["thread_start"](self)
    if getattr(self, "_sim_task", None):
        raise RuntimeError("threads can only be started once")
    s.fault_thread_start()
    self._sim_task = s.spawn("t%d" % len(s.tasks), self.run, thread=self, daemon=self.daemon)
    self._started.set()
    s.point()


def _join(self, timeout=None):
    t = getattr(self, "_sim_task", None)
    if t is None:
        if SIM:
            raise RuntimeError("cannot join thread before it is started")
        return R["thread_join"](self, timeout)
    s = SIM
    if s.cur is t:
        raise RuntimeError("cannot join current thread")
    end = None if timeout is None else s.now + max(0, timeout)
    while t.state != "done":
        if end is not None and s.now >= end:
            return
        s.block(t.joiners, end)


def _alive(self):
    t = getattr(self, "_sim_task", None)
    if t is None:
        return False if SIM else R["thread_alive"](self)
    return t.state != "done"


class Task:
    def __init__(self, name, fn, thread, daemon):
        self.name, self.fn, self.thread, self.daemon = name, fn, thread, daemon
        self.sem = R["lock"]()
        self.sem.acquire()
        self.state, self.wake, self.queue, self.joiners, self.pending, self.traced = "ready", None, None, [], None, 0
        self.ident = None


class Sim:
    def __init__(self, cfg):
        """cfg: seed, epoch, p_pre, p_stall, stall_max, limit, steps_max, clock [[t, delta]], http, udp, fs faults, stdin, intr, kill"""
        self.cfg = cfg
        self.rng = random.Random(cfg["seed"])
        self.now = 0.0
        self.tasks, self.cur = [], None
        self.fast_until = 0.0
        self.sched = R["lock"]()
        self.sched.acquire()
        self.ev = []
        self.steps = 0
        self.end = None
        self.p_pre = cfg.get("p_pre", 0.0)
        self.main_steps = 0
        self.intr = [dict(x) for x in cfg.get("intr", [])]
        self.kill = cfg.get("kill")
        self.switches = 0
        self.fs = None
        self.stalled = 0.0
        self.counts = {}
        self.trace_dir = None
        self.tids = {}
        self.fsops = 0

    # -------- time
    def wall(self):
        w = self.cfg["epoch"] + self.now
        for t, d in self.cfg.get("clock", ()):
            if round(self.now, 3) >= t:
                w += d
        return w

    def event(self, *a):
        self.ev.append([round(self.now, 3), self.cur.name if self.cur else "-"] + list(a))

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    # -------- tasks
    def in_task(self):
        return self.cur is not None and _thread.get_ident() == self.cur.ident

    def spawn(self, name, fn, thread=None, daemon=False):
        t = Task(name, fn, thread, daemon)
        self.tasks.append(t)
        self.event("spawn", name, 1 if daemon else 0)
        _thread.start_new_thread(self._run, (t,))
        return t

    def _run(self, t):
        t.sem.acquire()
        t.ident = _thread.get_ident()
        if t.thread is None:
            t.thread = threading.main_thread()
        threading._active[t.ident] = t.thread
        sys.settrace(self.trace)
        how = "return"
        try:
            t.fn()
        except Stop:
            how = "stop"
        except SystemExit as e:
            how = "exit %s" % (e.code,)
        except BaseException as e:
            import traceback
            tb = traceback.extract_tb(e.__traceback__)
            loc = [f for f in tb if self.trace_dir and f.filename.startswith(self.trace_dir)]
            how = "raised %s" % type(e).__name__
            self.event("uncaught", type(e).__name__, str(e)[:160], loc[-1].name if loc else "")
        finally:
            sys.settrace(None)
        t.state = "done"
        if how != "stop":
            self.event("task_end", t.name, how)
        self.wake(t.joiners)
        self.sched.release()

    def switch(self):
        t = self.cur
        self.sched.release()
        t.sem.acquire()
        if self.end:
            raise Stop()
        if t.pending is not None and not t.traced:
            e, t.pending = t.pending, None
            sys.settrace(self.trace)
            raise e

    def point(self):
        """a scheduling point: any ready task may run next"""
        if self.in_task():
            self.switch()

    def sleep(self, s):
        t = self.cur
        w = self.now + s
        # alone until then: time passes without a switch (same outcome as switching, only faster)
        if w < self.fast_until and all(o is t or o.state == "done" or (o.state != "ready" and (o.wake is None or o.wake > w)) for o in self.tasks):
            self.now = w
            return
        t.state, t.wake = "sleep", w
        self.switch()

    def block(self, q, end=None):
        t = self.cur
        t.state, t.wake, t.queue = "blocked", end, q
        q.append(t)
        try:
            self.switch()
        finally:
            if t in q:
                q.remove(t)
            t.queue = None

    def wake(self, q):
        for t in list(q):
            q.remove(t)
            if t.state in ("blocked", "sleep"):
                t.state, t.wake = "ready", None

    def fault_thread_start(self):
        pass

    # -------- pre-emption and step-precise faults, at source lines of the code under test
    def trace(self, frame, what, arg):
        f = frame.f_code.co_filename
        if self.trace_dir and f.startswith(self.trace_dir):
            return self.line
        return None

    def line(self, frame, what, arg):
        if what != "line" or self.end:
            return self.line
        self.steps += 1
        if self.steps > self.cfg.get("steps_max", 3000000):
            self.stop("livelock")
            self.switch()
        if self.cur.name == "main":
            for x in self.intr:
                if not x.get("done") and x.get("n") is not None and self.now >= x["t"] and x.get("armed", 1):
                    x["n"] -= 1
                    if x["n"] <= 0 and frame.f_code.co_code[frame.f_lasti] != NOP:      # the interpreter takes no signal at a "try:"
                        for y in self.intr:
                            y["done"] = 1           # the operator interrupts once
                        self.event("interrupt", "line")
                        self.count("fault_interrupt_mid_processing")
                        raise KeyboardInterrupt()
        k = self.kill
        if k and k.get("n") is not None and self.now >= k["t"]:
            k["n"] -= 1
            if k["n"] <= 0:
                self.count("fault_kill_mid_processing")
                self.stop("killed")
                self.switch()
        if self.p_pre and self.rng.random() < self.p_pre:
            self.count("preemptions")
            if self.cfg.get("p_stall") and self.stalled < self.cfg.get("stall_max", 4.0) and self.rng.random() < self.cfg["p_stall"]:
                d = round(self.rng.uniform(0.05, 1.5), 2)
                self.stalled += d
                self.count("fault_thread_stall")
            else:
                d = None
            t, t.traced = self.cur, 1
            try:
                self.sleep(d) if d is not None else self.switch()
            finally:
                t.traced = 0
        t = self.cur
        if t.pending is not None and frame.f_code.co_code[frame.f_lasti] != NOP:
            e, t.pending = t.pending, None
            raise e
        return self.line

    def stop(self, why):
        if not self.end:
            self.end = why
            self.ev.append([round(self.now, 3), self.cur.name if self.cur else "-", "end", why])

    def run(self, fn):
        global SIM
        self.spawn("main", fn)
        limit = self.cfg["limit"]
        main_end = None
        while not self.end:
            if all(t.state == "done" or t.daemon for t in self.tasks):
                self.stop("finished")
                break
            if main_end is None and self.tasks[0].state == "done":
                main_end = self.now
                limit = min(limit, self.now + self.cfg.get("drain_limit", 600))
            due = [x for x in self.intr if not x.get("done") and x.get("n") is None and x["t"] <= self.now and x.get("armed", 1)]
            for x in due[:1]:
                m = self.tasks[0]
                if m.state == "done":
                    x["done"] = 1
                else:
                    for y in self.intr:
                        y["done"] = 1
                    self.ev.append([round(self.now, 3), "-", "interrupt", "blocked" if m.state != "ready" else "running"])
                    self.count("fault_interrupt")
                    m.pending = KeyboardInterrupt()
                    if m.state in ("sleep", "blocked"):
                        if m.queue and m in m.queue:
                            m.queue.remove(m)
                        m.state, m.wake = "ready", None
            if self.kill and self.kill.get("n") is None and self.kill.get("op") is None and self.kill["t"] <= self.now:
                self.count("fault_kill")
                self.stop("killed")
                break
            for t in self.tasks:
                if t.state in ("sleep", "blocked") and t.wake is not None and t.wake <= self.now:
                    if t.queue and t in t.queue:
                        t.queue.remove(t)
                    t.state, t.wake = "ready", None
            ready = [t for t in self.tasks if t.state == "ready"]
            if not ready:
                nxt = [t.wake for t in self.tasks if t.state in ("sleep", "blocked") and t.wake is not None]
                if not nxt:
                    self.stop("deadlock")
                    break
                nxt += [x["t"] for x in self.intr if not x.get("done") and x["t"] > self.now]
                if self.kill and self.kill["t"] > self.now:
                    nxt.append(self.kill["t"])
                n = min(nxt)
                if n > limit:
                    self.now = limit
                    self.stop("limit")
                    break
                self.now = max(self.now, n)
                continue
            t = ready[0] if len(ready) == 1 else ready[self.rng.randrange(len(ready))]
            self.switches += 1
            self.cur = t
            self.fast_until = min([limit] + [x["t"] for x in self.intr if not x.get("done")] + ([self.kill["t"]] if self.kill else []))
            t.sem.release()
            self.sched.acquire()
            self.cur = None
        sys.settrace(None)
        SIM_END(self)


def SIM_END(s):
    global SIM
    s.open_at_end = s.fs.open_files() if s.fs else []
    if s.end in ("finished",):
        if s.fs:
            # interpreter exit: buffered files that are still open are flushed by their finalisers
            s.cur = None
            gc.collect()


# ------------------------------------------------------------------------------------------------ disk
class Inode:
    __slots__ = ("data", "hist", "n")

    def __init__(self, n, data=b""):
        self.n, self.data = n, bytearray(data)
        self.hist = []          # (time, content before the change, is_write)


class FS:
    """files under ROOT: volatile state plus enough history to compute what a power loss leaves"""
    WRITEBACK = 30.0

    def __init__(self, sim, files, faults=()):
        self.sim = sim
        self.n = 0
        self.dir, self.meta, self.handles, self.fds = {}, [], [], {}
        self.nextfd = 1000
        for p, d in files.items():
            self.n += 1
            self.dir[p] = Inode(self.n, bytes.fromhex(d))
        self.base = dict(self.dir)            # durable directory
        self.faults = [dict(f) for f in faults]
        self.ops = 0

    def fault(self, op, path):
        """op fault decided by the plan: by time window or by count of matching operations; also the crash point"""
        s = self.sim
        self.ops += 1
        s.event("fs", op, path)
        k = s.kill
        if k and k.get("op") is not None and s.now >= k["t"] and (k.get("path") is None or path.endswith(k["path"]) or k["path"] in path) and s.in_task():
            k["op"] -= 1
            if k["op"] < 0:
                s.count("fault_crash_at_disk_op")
                s.stop("killed")
                s.switch()
        for f in self.faults:
            if op not in f["ops"] or (f.get("path") and f["path"] not in path):
                continue
            if "from" in f and not (f["from"] <= round(s.now, 3) < f["to"]):
                continue
            if f.get("skip", 0) > 0:
                f["skip"] -= 1
                continue
            if f.get("left") is not None:
                if f["left"] <= 0:
                    continue
                f["left"] -= 1
            s.count("fault_disk_" + f["err"].lower())
            s.event("fs_fault", op, path, f["err"])
            return f
        return None

    def check(self, op, path):
        f = self.fault(op, path)
        if f:
            raise OSError(ERR[f["err"]], os.strerror(ERR[f["err"]]), path)

    def open(self, path, flags):
        acc = flags & (os.O_WRONLY | os.O_RDWR)
        self.check("open_w" if acc else "open_r", path)
        ino = self.dir.get(path)
        if ino == "dir":
            raise IsADirectoryError(errno.EISDIR, "Is a directory", path)
        if ino is None:
            if not flags & os.O_CREAT:
                raise FileNotFoundError(errno.ENOENT, "No such file or directory", path)
            d = os.path.dirname(path)
            if d != ROOT and self.dir.get(d) != "dir":
                raise FileNotFoundError(errno.ENOENT, "No such file or directory", path)
            self.n += 1
            ino = Inode(self.n)
            self.meta.append((self.sim.now, "link", path, ino))
            self.dir[path] = ino
        elif flags & os.O_EXCL and flags & os.O_CREAT:
            raise FileExistsError(errno.EEXIST, "File exists", path)
        elif flags & os.O_TRUNC and acc:
            if ino.data:
                ino.hist.append((self.sim.now, bytes(ino.data), 0))
                ino.data = bytearray()
        h = Handle(self, path, ino, flags)
        return h

    def open_files(self):
        return sorted(h.path for h in self.handles if not h.closed_)

    def rename(self, a, b):
        self.check("rename", a)
        if a not in self.dir:
            raise FileNotFoundError(errno.ENOENT, "No such file or directory", a)
        ino = self.dir.pop(a)
        self.dir[b] = ino
        self.meta.append((self.sim.now, "rename", a, b, ino))

    def unlink(self, a):
        self.check("unlink", a)
        if a not in self.dir:
            raise FileNotFoundError(errno.ENOENT, "No such file or directory", a)
        del self.dir[a]
        self.meta.append((self.sim.now, "unlink", a))

    def sync(self, h):
        self.check("fsync", h.path)
        if h.ino == "dir":
            self.base = dict(self.dir)
            self.meta = []
            return
        h.ino.hist = []
        # journalled metadata: the file's own creation reaches the disk with it
        for i, m in enumerate(self.meta):
            if m[1] == "link" and m[3] is h.ino:
                self.base[m[2]] = m[3]

    def live(self):
        """what another process sees now (a killed process loses only its own buffers)"""
        return {p: bytes(i.data).hex() for p, i in sorted(self.dir.items()) if i != "dir"}

    def crash(self, rng, now):
        """durable state after a power loss"""
        d = dict(self.base)
        meta = [m for m in self.meta]
        old = [m for m in meta if now - m[0] > self.WRITEBACK]
        new = [m for m in meta if now - m[0] <= self.WRITEBACK]
        keep = old + new[:rng.randrange(len(new) + 1)]
        for m in keep:
            if m[1] == "link":
                d[m[2]] = m[3]
            elif m[1] == "rename":
                d.pop(m[2], None)
                d[m[3]] = m[4]
            else:
                d.pop(m[2], None)
        out = {}
        for p, ino in sorted(d.items()):
            if ino == "dir":
                continue
            hist = [h for h in ino.hist if now - h[0] <= self.WRITEBACK]
            versions = [h[1] for h in hist] + [bytes(ino.data)]
            j = rng.randrange(len(versions))
            c = versions[j]
            if j > 0 and hist[j - 1][2]:
                prev = versions[j - 1]
                k = rng.randrange(4)
                if k == 0 and len(c) > len(prev):       # torn: part of the last write
                    c = c[:rng.randrange(len(prev), len(c) + 1)]
                elif k == 1 and len(c) > len(prev):     # length on disk, blocks not
                    cut = rng.randrange(len(prev), len(c) + 1)
                    c = c[:cut] + bytes(len(c) - cut)
            out[p] = c.hex()
        return out


class Handle(io.RawIOBase):
    def __init__(self, fs, path, ino, flags):
        super().__init__()
        self.fs, self.path, self.ino, self.flags = fs, path, ino, flags
        self.pos = 0
        self.closed_ = False
        self.fd = fs.nextfd
        fs.nextfd += 1
        fs.fds[self.fd] = self
        fs.handles.append(self)
        self.mode = "rb+" if flags & os.O_RDWR else ("wb" if flags & os.O_WRONLY else "rb")
        self.name = path

    def readable(self):
        return not self.flags & os.O_WRONLY

    def writable(self):
        return bool(self.flags & (os.O_WRONLY | os.O_RDWR))

    def seekable(self):
        return True

    def fileno(self):
        return self.fd

    def isatty(self):
        return False

    def readinto(self, b):
        if not self.readable():
            raise io.UnsupportedOperation("not readable")
        self.fs.check("read", self.path)
        d = self.ino.data[self.pos:self.pos + len(b)]
        b[:len(d)] = d
        self.pos += len(d)
        return len(d)

    def write(self, b):
        if not self.writable():
            raise io.UnsupportedOperation("not writable")
        b = bytes(b)
        if not b:
            return 0
        f = self.fs.fault("write", self.path)
        if f and f.get("partial") and len(b) > f["partial"]:
            b = b[:f["partial"]]
            f["partial"] = 0
        elif f:
            raise OSError(ERR[f["err"]], os.strerror(ERR[f["err"]]), self.path)
        if self.flags & os.O_APPEND:
            self.pos = len(self.ino.data)
        self.ino.hist.append((self.fs.sim.now, bytes(self.ino.data), 1))
        if len(self.ino.hist) > 400:
            del self.ino.hist[:200]
        if self.pos > len(self.ino.data):
            self.ino.data.extend(bytes(self.pos - len(self.ino.data)))
        self.ino.data[self.pos:self.pos + len(b)] = b
        self.pos += len(b)
        return len(b)

    def seek(self, o, w=0):
        self.pos = o if w == 0 else self.pos + o if w == 1 else len(self.ino.data) + o
        return self.pos

    def tell(self):
        return self.pos

    def truncate(self, n=None):
        n = self.pos if n is None else n
        self.fs.check("write", self.path)
        self.ino.hist.append((self.fs.sim.now, bytes(self.ino.data), 0))
        self.ino.data = self.ino.data[:n] + bytes(max(0, n - len(self.ino.data)))
        return n

    def close(self):
        if not self.closed:
            super().close()
            self.closed_ = True
            if not self.fs.sim.end:
                self.fs.sim.event("fs", "close", self.path)
            self.fs.fds.pop(self.fd, None)


def sabs(p):
    """absolute simulated path, or None when the path is outside the simulated disk"""
    p = os.fspath(p)
    if isinstance(p, bytes):
        p = p.decode()
    if not p.startswith("/"):
        p = ROOT + "/" + p
    p = os.path.normpath(p)
    return p if p == ROOT or p.startswith(ROOT + "/") else None


_MODES = {"r": os.O_RDONLY, "w": os.O_WRONLY | os.O_CREAT | os.O_TRUNC, "a": os.O_WRONLY | os.O_CREAT | os.O_APPEND, "x": os.O_WRONLY | os.O_CREAT | os.O_EXCL}


def sim_open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    s = SIM
    if s is None or s.fs is None:
        return R["open"](file, mode, buffering, encoding, errors, newline, closefd, opener)
    flags = None
    for c in "rwax":
        if c in mode:
            flags = _MODES[c]
    if "+" in mode:
        flags = (flags & ~os.O_WRONLY) | os.O_RDWR
    if isinstance(file, int):
        raw = s.fs.fds.get(file)
        if raw is None:
            return R["open"](file, mode, buffering, encoding, errors, newline, closefd, opener)
    else:
        p = sabs(file)
        if p is None:
            if any(c in mode for c in "wax+"):
                s.event("outside_write", str(file))
                raise PermissionError(errno.EACCES, "outside the simulated disk", file)
            return R["open"](file, mode, buffering, encoding, errors, newline, closefd, opener)
        if opener:
            fd = opener(file, flags | os.O_CLOEXEC)
            raw = s.fs.fds[fd]
        else:
            s.point()
            raw = s.fs.open(p, flags)
    binary = "b" in mode
    if buffering == 0:
        return raw
    if "+" in mode:
        buf = io.BufferedRandom(raw)
    elif flags & os.O_WRONLY:
        buf = io.BufferedWriter(raw)
        if flags & os.O_APPEND:
            raw.seek(0, 2)
    else:
        buf = io.BufferedReader(raw)
    if binary:
        return buf
    t = io.TextIOWrapper(buf, encoding or "utf-8", errors, newline, buffering == 1)
    t.mode = mode
    return t


def _path1(name, simf):
    real = getattr(os, name)

    def f(path, *a, **k):
        if SIM and SIM.fs and not isinstance(path, int) and path is not None:
            p = sabs(path)
            if p is not None:
                return simf(p, *a, **k)
            if name in ("remove", "unlink", "rmdir", "mkdir", "chmod", "truncate"):
                SIM.event("outside_write", str(path))
                raise PermissionError(errno.EACCES, "outside the simulated disk", path)
        return real(path, *a, **k)
    setattr(os, name, f)


def _stat(p, *a, **k):
    fs = SIM.fs
    i = fs.dir.get(p)
    if p == ROOT or i == "dir":
        return os.stat_result((statm.S_IFDIR | 0o755, 1, 1, 1, 0, 0, 0, 0, 0, 0))
    if i is None:
        raise FileNotFoundError(errno.ENOENT, "No such file or directory", p)
    t = int(SIM.wall())
    return os.stat_result((statm.S_IFREG | 0o644, i.n, 1, 1, 0, 0, len(i.data), t, t, t))


def patch_os():
    real = {n: getattr(os, n) for n in ("open", "close", "write", "read", "fsync", "fdatasync", "fstat", "rename", "replace", "getcwd", "listdir", "fdopen")}

    def rename(a, b, **k):
        if SIM and SIM.fs:
            pa, pb = sabs(a), sabs(b)
            if pa is None or pb is None:
                SIM.event("outside_write", "%s %s" % (a, b))
                raise PermissionError(errno.EACCES, "outside the simulated disk", a)
            SIM.point()
            return SIM.fs.rename(pa, pb)
        return real["rename"](a, b, **k)
    os.rename = os.replace = rename

    def oopen(path, flags, mode=0o777, *a, **k):
        if SIM and SIM.fs:
            p = sabs(path)
            if p is not None:
                if p == ROOT:
                    return Handle(SIM.fs, p, "dir", os.O_RDONLY).fd
                return SIM.fs.open(p, flags).fd
            if flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT):
                raise PermissionError(errno.EACCES, "outside the simulated disk", path)
        return real["open"](path, flags, mode, *a, **k)
    os.open = oopen

    def byfd(name, f):
        def g(fd, *a):
            if SIM and SIM.fs and fd in SIM.fs.fds:
                return f(SIM.fs.fds[fd], *a)
            return real[name](fd, *a)
        setattr(os, name, g)
    byfd("close", lambda h: h.close())
    byfd("write", lambda h, b: h.write(b))
    byfd("read", lambda h, n: h.read(n))
    byfd("fsync", lambda h: SIM.fs.sync(h))
    byfd("fdatasync", lambda h: SIM.fs.sync(h))
    byfd("fstat", lambda h: _stat(h.path))
    os.fdopen = lambda fd, mode="r", buffering=-1, encoding=None, *a, **k: sim_open(fd, mode, buffering, encoding, *a, **k)
    os.getcwd = lambda: ROOT if SIM and SIM.fs else real["getcwd"]()
    _path1("stat", _stat)
    _path1("lstat", _stat)
    _path1("remove", lambda p, **k: SIM.fs.unlink(p))
    _path1("unlink", lambda p, **k: SIM.fs.unlink(p))
    _path1("chmod", lambda p, *a, **k: None)
    _path1("utime", lambda p, *a, **k: None)
    _path1("access", lambda p, *a, **k: p == ROOT or p in SIM.fs.dir)

    def mkdir(p, *a, **k):
        if p == ROOT or p in SIM.fs.dir:
            raise FileExistsError(errno.EEXIST, "File exists", p)
        SIM.fs.dir[p] = "dir"
    _path1("mkdir", mkdir)

    def listdir(path="."):
        if SIM and SIM.fs and not isinstance(path, int):
            p = sabs(path)
            if p is not None:
                return sorted({q[len(p) + 1:].split("/")[0] for q in SIM.fs.dir if q.startswith(p + "/")})
        return real["listdir"](path)
    os.listdir = listdir


# ------------------------------------------------------------------------------------------------ stdin
class SimStdinRaw(io.RawIOBase):
    """bytes arrive at the planned times; a read blocks until some are there; then end of file"""

    def __init__(self, sim, items):
        super().__init__()
        self.s, self.items, self.i = sim, items, 0
        self.pending = bytearray()

    def readable(self):
        return True

    def fileno(self):
        raise io.UnsupportedOperation("fileno")

    def readinto(self, b):
        s = self.s
        if not s.in_task():
            return 0
        for x in s.intr:
            x["armed"] = 1
        while True:
            while self.i < len(self.items) and self.items[self.i][0] <= s.now:
                self.pending += bytes.fromhex(self.items[self.i][1])
                self.i += 1
            if self.pending:
                d = bytes(self.pending[:len(b)])
                del self.pending[:len(d)]
                b[:len(d)] = d
                s.event("stdin", len(d))
                s.point()
                return len(d)
            if self.i >= len(self.items):
                s.event("stdin_eof")
                s.point()
                return 0
            s.sleep(self.items[self.i][0] - s.now)


class SimStdin(io.TextIOWrapper):
    def readline(self, *a):
        SIM.event("readline")
        if SIM.cfg.get("gc_socks") and SIM.socks:
            gc.collect()
        SIM.event("open_socks", len(SIM.socks))
        for p in SIM.cfg.get("watch", ()):
            ino = SIM.fs.dir.get(p)
            SIM.event("vis", p, len(ino.data) if ino is not None else 0)
        l = super().readline(*a)
        SIM.event("line", l[:20000].encode("utf-8", "backslashreplace").hex())
        return l


# ------------------------------------------------------------------------------------------------ UDP
class SimSocket:
    """datagram socket; operations fail as the plan says.  Counts as open until closed or collected."""
    n = 0

    def __init__(self, family=-1, type=-1, proto=-1, fileno=None):
        s = SIM
        SimSocket.n += 1
        self._id = SimSocket.n
        self._open = False
        s.point()
        self._fault("create")
        self._open = True
        s.socks.add(self._id)
        s.event("udp_socket", self._id)
        self.to = None

    def _fault(self, op):
        s = SIM
        for f in s.cfg.get("udp", ()):
            if op in f["ops"] and f["from"] <= round(s.now, 3) < f["to"]:
                s.count("fault_udp_%s_%s" % (op, f["err"].lower()))
                s.event("udp_fault", op, f["err"])
                if f["err"] == "TIMEOUT":
                    s.sleep(self.to if getattr(self, "to", None) else 5)
                    raise socketm.timeout("timed out")
                if f["err"] == "GAI":
                    raise socketm.gaierror(-2, "Name or service not known")
                raise OSError(ERR[f["err"]], os.strerror(ERR[f["err"]]))

    def settimeout(self, t):
        self.to = t

    def setsockopt(self, level, opt, *a):
        self._fault("reuseport" if opt == getattr(socketm, "SO_REUSEPORT", -1) else "setsockopt")
        SIM.event("udp_opt", level, opt)
        if level == socketm.SOL_SOCKET and opt == socketm.SO_BROADCAST and a and a[0]:
            self.bc = 1

    def bind(self, a):
        self._fault("bind")

    def connect(self, a):
        self.peer = a

    def send(self, data, *a):
        return self.sendto(data, self.peer)

    def sendto(self, data, *a):
        addr = a[-1]
        if not self._open:
            raise OSError(errno.EBADF, "Bad file descriptor")
        s = SIM
        s.point()
        kind = "broadcast" if str(addr[0]) in ("<broadcast>", "255.255.255.255") else "localhost" if str(addr[0]) in ("127.0.0.1", "localhost") else str(addr[0])
        s.event("udp_try", kind)
        if kind == "broadcast" and not getattr(self, "bc", 0):
            raise PermissionError(errno.EACCES, "Permission denied")
        self._fault(kind)
        s.event("udp_sent", kind, addr[1], bytes(data).hex())
        return len(data)

    def close(self):
        if self._open:
            self._open = False
            SIM.socks.discard(self._id)
            SIM.event("udp_close", self._id)

    def fileno(self):
        return 50 + self._id if self._open else -1

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def __del__(self):
        if getattr(self, "_open", False) and SIM:
            self._open = False
            SIM.socks.discard(self._id)


# ------------------------------------------------------------------------------------------------ HTTP
def http_send(adapter, request, stream=False, timeout=None, verify=True, cert=None, proxies=None):
    import gzip, requests
    from requests.structures import CaseInsensitiveDict
    s = SIM
    url = request.url.split("?")[0]
    ep = {"telemetry": "telemetry", "listeners": "listeners"}.get(url.rsplit("/", 1)[-1]) or ("ids" if "payload_id" in url else "fields" if "custom_field" in url else "other")
    body = request.body or b""
    if isinstance(body, str):
        body = body.encode()
    if request.headers.get("Content-Encoding") == "gzip":
        try:
            body = gzip.decompress(body)
        except Exception:
            body = b"BADGZIP"
    s.nreq += 1
    n = s.nreq
    st = s.cfg.get("http", {}).get(ep, {})
    s.event("http_req", n, ep, request.method, body.decode("utf-8", "backslashreplace"))
    k = s.epn.get(ep, 0)
    s.epn[ep] = k + 1
    b = None
    for w in st.get("windows", ()):
        if w["from"] <= round(s.now, 3) < w["to"]:
            b = w
            break
    if b is None:
        sc = st.get("script", ())
        b = sc[k] if k < len(sc) else st.get("default", {"s": 200, "d": 0.2})
    d = b.get("d", 0.2)
    rt = timeout[1] if isinstance(timeout, tuple) else timeout
    ct = timeout[0] if isinstance(timeout, tuple) else timeout
    code = b["s"]
    if code == "conn":
        s.count("fault_http_connection_error")
        s.sleep(d)
        s.event("http_res", n, "conn")
        raise requests.exceptions.ConnectionError("connection refused", request=request)
    if code == "ctimeout":
        s.count("fault_http_connect_timeout")
        s.sleep(ct if ct else 3600 * 24)
        s.event("http_res", n, "ctimeout")
        raise requests.exceptions.ConnectTimeout("connect timeout", request=request)
    if code == "rtimeout" or (rt is not None and d > rt) or (code == "lost"):
        s.count("fault_http_" + ("response_lost" if code == "lost" else "read_timeout"))
        s.sleep(d if code == "lost" else (rt if rt else 3600 * 24))
        s.event("http_res", n, "lost" if code == "lost" else "rtimeout")
        if code == "lost":
            raise requests.exceptions.ConnectionError("connection reset by peer", request=request)
        raise requests.exceptions.ReadTimeout("read timeout", request=request)
    if code == "trunc":
        s.count("fault_http_truncated_transfer")
        s.sleep(d)
        s.event("http_res", n, "trunc")
        raise requests.exceptions.ChunkedEncodingError("IncompleteRead", request=request)
    s.sleep(d)
    if d > 1:
        s.count("fault_http_slow")
    if code != 200:
        s.count("fault_http_%s" % code)
    r = requests.Response()
    r.status_code = code
    c = b.get("b")
    if c is None:
        c = {202: '{"message": "x", "errors": [{"error_message": "bad", "payload": {}}], "warnings": []}'}.get(code, "OK" if code == 200 else "error")
    if isinstance(c, dict) and "hex" in c:
        r._content = bytes.fromhex(c["hex"])
    else:
        r._content = c.encode()
    r.headers = CaseInsensitiveDict(b.get("h") or {"Content-Type": "text/plain; charset=utf-8"})
    r.encoding = "utf-8"
    r.url = request.url
    r.request = request
    r.reason = "x"
    s.event("http_res", n, code)
    return r


# ------------------------------------------------------------------------------------------------ one boot
def boot(cfg, files, fn, trace_dir):
    """run fn() as the main task of a fresh simulation.  Call in a forked child: it patches the process for good."""
    global SIM
    import requests.adapters
    gc.disable()
    s = Sim(cfg)
    s.trace_dir = trace_dir
    s.socks, s.nreq, s.epn = set(), 0, {}
    s.fs = FS(s, files, cfg.get("fs", ()))
    SimSocket.n = 0
    builtins.open = io.open = sim_open
    patch_os()
    os.environ["NO_PROXY"] = "*"
    os.environ.pop("NETRC", None)
    requests.adapters.HTTPAdapter.send = http_send
    requests.utils.get_netrc_auth = lambda *a, **k: None
    requests.sessions.get_netrc_auth = lambda *a, **k: None
    socketm.socket = SimSocket
    sys.stdin = SimStdin(io.BufferedReader(SimStdinRaw(s, cfg.get("stdin", []))), encoding="utf-8", errors=cfg.get("stdin_errors", "strict"))
    sys.stdout = sys.stderr = io.StringIO()
    threading._shutdown = lambda: None
    for x in s.intr:
        x["armed"] = 0
    SIM = s
    s.run(fn)
    end = s.now
    live = s.fs.live()
    power = None
    if s.end == "killed" and cfg.get("kill", {}).get("power"):
        power = s.fs.crash(random.Random(cfg["seed"] ^ 0x5DEECE66), s.now)
    elif s.end == "finished":
        # buffers flushed at interpreter exit
        for h in list(s.fs.handles):
            pass
        gc.collect()
        live = s.fs.live()
    SIM = None
    return {"ev": s.ev, "end": s.end, "t": round(end, 3), "files": power if power is not None else live, "open_files": s.open_at_end, "socks": len(s.socks),
            "counts": s.counts, "steps": s.steps, "switches": s.switches, "fsops": s.fs.ops}
