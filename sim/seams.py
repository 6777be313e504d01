"""Seams: dispatchers installed BEFORE GPyOpt is imported. Each forwards to the real facility unless a
simulated world is active in this process (W.active)."""
import builtins, io, os, random as _random, sys, time as _time, datetime as _datetime, errno
import multiprocessing as _mp
import multiprocessing.connection as _mpc

REAL = {}


class World:
    """What the process sees while a run is active."""
    active = False
    clock = None        # SimClock
    entropy = None      # callable nbytes -> bytes
    fs = None           # SimFS
    os = None           # SimOS (processes)


W = World()


class SimClock:
    def __init__(self, start=1700000000.0, mono=5000.0):
        self.wall, self.mono = start, mono
        self.total = 0.0
        self.reads = 0
        self.on_read = None     # callback, may step/advance the clock

    def advance(self, dt):
        assert dt >= 0
        self.wall += dt
        self.mono += dt
        self.total += dt

    def step(self, dt):
        """somebody sets the wall clock"""
        self.wall += dt

    def read_wall(self):
        self.reads += 1
        if self.on_read is not None:
            self.on_read()
        return self.wall

    def read_mono(self):
        self.reads += 1
        if self.on_read is not None:
            self.on_read()
        return self.mono


def install():
    if REAL:
        return
    for n in ("time", "time_ns", "monotonic", "monotonic_ns", "perf_counter", "perf_counter_ns", "process_time",
              "process_time_ns", "sleep", "strftime", "localtime", "gmtime", "ctime", "asctime"):
        REAL["time." + n] = getattr(_time, n)
    R = REAL
    _time.time = lambda: W.clock.read_wall() if W.active else R["time.time"]()
    _time.time_ns = lambda: int(W.clock.read_wall() * 1e9) if W.active else R["time.time_ns"]()
    for n in ("monotonic", "perf_counter", "process_time"):
        setattr(_time, n, (lambda n: lambda: W.clock.read_mono() if W.active else R["time." + n]())(n))
        setattr(_time, n + "_ns", (lambda n: lambda: int(W.clock.read_mono() * 1e9) if W.active else R["time." + n + "_ns"]())(n))

    def sleep(s):
        if not W.active:
            return R["time.sleep"](s)
        W.clock.advance(max(0.0, float(s)))
    _time.sleep = sleep
    _time.gmtime = lambda secs=None: R["time.gmtime"](W.clock.wall if (W.active and secs is None) else secs)
    _time.localtime = lambda secs=None: R["time.gmtime"](W.clock.wall if secs is None else secs) if W.active else R["time.localtime"](secs)
    _time.ctime = lambda secs=None: R["time.asctime"](_time.localtime(secs))
    _time.asctime = lambda t=None: R["time.asctime"](_time.localtime() if t is None else t)
    _time.strftime = lambda fmt, t=None: R["time.strftime"](fmt, _time.localtime() if t is None else t)

    RealDT = _datetime.datetime
    REAL["datetime"] = RealDT

    class SimDateTime(RealDT):
        @classmethod
        def now(cls, tz=None):
            if not W.active:
                return RealDT.now(tz)
            return RealDT.fromtimestamp(W.clock.wall, tz or _datetime.timezone.utc).replace(tzinfo=tz)

        @classmethod
        def utcnow(cls):
            return cls.now()

        @classmethod
        def today(cls):
            return cls.now()
    _datetime.datetime = SimDateTime

    # --- entropy (numpy's SeedSequence reaches random._urandom through secrets.randbits)
    REAL["os.urandom"] = os.urandom

    def urandom(n):
        return W.entropy(n) if (W.active and W.entropy is not None) else REAL["os.urandom"](n)
    os.urandom = urandom
    _random._urandom = urandom

    # --- files
    REAL["open"] = builtins.open

    def sim_open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
        if W.active and W.fs is not None and W.fs.owns(file):
            return W.fs.open(file, mode, buffering, encoding, errors, newline)
        return REAL["open"](file, mode, buffering, encoding, errors, newline, closefd, opener)
    builtins.open = sim_open
    io.open = sim_open

    # --- processes
    REAL["Process"], REAL["Pipe"], REAL["wait"] = _mp.Process, _mp.Pipe, _mpc.wait
    RealProcess = _mp.Process

    class Process(RealProcess):
        def __new__(cls, *a, **k):
            if W.active and W.os is not None and cls is Process:
                return W.os.make_process(*a, **k)
            return super().__new__(cls)
    Process.__name__ = "Process"
    _mp.Process = Process
    _mp.Pipe = lambda duplex=True: W.os.make_pipe(duplex) if (W.active and W.os is not None) else REAL["Pipe"](duplex)
    real_get_context = _mp.get_context

    class Context:
        """what get_context() gives while the simulated system is active"""
        def __init__(self, real):
            self._real = real

        def Process(self, *a, **k):
            return W.os.make_process(*a, **k)

        def Pipe(self, duplex=True):
            return W.os.make_pipe(duplex)

        def __getattr__(self, n):
            return getattr(self._real, n)

    def get_context(method=None):
        c = real_get_context(method)
        return Context(c) if (W.active and W.os is not None) else c
    _mp.get_context = get_context
    _mpc.wait = lambda objs, timeout=None: W.os.wait(objs, timeout) if (W.active and W.os is not None) else REAL["wait"](objs, timeout)


class SimFS:
    """Faults on files below `root` (a scratch directory of this run). The bytes live in real files there."""

    def __init__(self, ctx, root):
        self.ctx, self.root = ctx, os.path.realpath(root)
        self.faulty = False          # faults only while armed
        self.plan = {}
        self.fired = []              # fault kinds fired since the last arm()
        self.writes = 0
        self.bytes = 0
        self.opens = 0
        self.buffer = None           # size of Python's two buffers (8192 if None)

    def owns(self, file):
        if not isinstance(file, (str, bytes, os.PathLike)):
            return False
        p = os.path.realpath(os.path.join(os.getcwd(), os.fsdecode(file)))
        return p.startswith(self.root + os.sep)

    def arm(self, plan):
        """plan: dict with optional keys open, read, write_at (nth raw write fails), full_at (bytes), close, short, interrupt_at, buf"""
        self.plan, self.faulty, self.fired = dict(plan), True, []
        self.writes = self.bytes = self.opens = 0

    def disarm(self):
        self.faulty = False
        return self.fired

    def fire(self, kind, *d):
        self.fired.append(kind)
        self.ctx.fault("disk:" + kind, *d)

    def open(self, file, mode, buffering, encoding, errors, newline):
        plan = self.plan if self.faulty else {}
        name = os.path.basename(os.fsdecode(file))
        match = plan.get("only")
        if match is not None and match not in name:
            plan = {}
        self.opens += 1
        if plan.get("open") is not None and self.opens > plan.get("open_at", 0) and ("w" in mode or "a" in mode or "x" in mode or "+" in mode):
            self.fire("open", name)
            raise OSError(plan["open"], os.strerror(plan["open"]), file)
        if plan.get("ropen") is not None and not ("w" in mode or "a" in mode or "x" in mode or "+" in mode):
            self.fire("open-read", name)
            raise OSError(plan["ropen"], os.strerror(plan["ropen"]), file)
        rawmode = mode.replace("t", "").replace("b", "")
        raw = SimRaw(self, file, rawmode, plan, name)
        size = plan.get("buf", self.buffer or (buffering if buffering > 1 else 8192))
        if "+" in mode:
            buf = io.BufferedRandom(raw, size)
        elif "r" in mode:
            buf = io.BufferedReader(raw, size)
        else:
            buf = io.BufferedWriter(raw, size)
        if "b" in mode:
            return raw if buffering == 0 else buf
        t = io.TextIOWrapper(buf, encoding, errors, newline, line_buffering=(buffering == 1))
        t.mode = mode
        if self.buffer:
            t._CHUNK_SIZE = self.buffer
        return t


class SimRaw(io.RawIOBase):
    def __init__(self, fs, file, mode, plan, name):
        self.fs, self.nm = fs, name
        self.f = io.FileIO(file, mode)

    @property
    def plan(self):
        """the faults armed now, for this file"""
        p = self.fs.plan
        return p if p.get("only") is None or p["only"] in self.nm else {}

    def __getattr__(self, n):
        if n == "name":
            return self.nm
        raise AttributeError(n)

    def readable(self): return self.f.readable()
    def writable(self): return self.f.writable()
    def seekable(self): return self.f.seekable()
    def seek(self, *a): return self.f.seek(*a)
    def tell(self): return self.f.tell()
    def truncate(self, *a): return self.f.truncate(*a)
    def fileno(self): return self.f.fileno()
    def isatty(self): return False

    def readinto(self, b):
        p = self.plan if self.fs.faulty else {}
        if p.get("read") is not None:
            k = self.fs.__dict__.setdefault("reads", 0)
            self.fs.reads = k + 1
            if k >= p.get("read_at", 0):
                self.fs.fire("read", self.nm)
                raise OSError(p["read"], os.strerror(p["read"]))
        n = len(b)
        if p.get("short") and n > 1:
            n = 1 + (n - 1) // p["short"]
            m = self.f.read(n)
            b[:len(m)] = m
            return len(m)
        return self.f.readinto(b)

    def write(self, b):
        fs = self.fs
        p = self.plan if fs.faulty else {}
        n = len(b)
        fs.writes += 1
        if p.get("write_at") is not None and fs.writes - 1 >= p["write_at"] and fs.writes - 1 < p["write_at"] + p.get("write_n", 1 << 30):
            fs.fire("write-error", self.nm)
            raise OSError(errno.EIO, os.strerror(errno.EIO))
        if p.get("interrupt_at") is not None and fs.writes - 1 == p["interrupt_at"]:
            fs.fire("interrupt-in-write", self.nm)
            from .core import SimInterrupt
            raise SimInterrupt()
        if p.get("full_at") is not None:
            room = p["full_at"] - fs.bytes
            if room <= 0:
                fs.fire("disk-full", self.nm)
                raise OSError(errno.ENOSPC, os.strerror(errno.ENOSPC))
            if n > room:
                n = room
                fs.ctx.faults["disk:short-write"] += 1
        if p.get("short") and n > 1:
            m = 1 + (n - 1) // p["short"]
            if m < n:
                n = m
                fs.ctx.faults["disk:short-write"] += 1
                fs.ctx.nontrivial = True
        self.f.write(bytes(b[:n]))
        fs.bytes += n
        return n

    def close(self):
        if self.closed:
            return
        try:
            super().close()
        finally:
            self.f.close()
        p = self.plan if self.fs.faulty else {}
        if p.get("close") is not None and ("w" in self.f.mode or "a" in self.f.mode or "+" in self.f.mode):
            self.fs.fire("close-error", self.nm)
            raise OSError(p["close"], os.strerror(p["close"]))
