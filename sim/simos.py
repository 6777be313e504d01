"""Simulated multiprocessing: processes with their own handles and random state, pipes with finite capacity, faults."""
import copy
import errno
import itertools
import os
import pickle
import struct
import threading
from multiprocessing.reduction import ForkingPickler

import numpy as np

from .core import HarnessError
from .sched import Sched, SimStop


class Crash(BaseException):
    """the simulated process dies here"""


class End:
    _n = itertools.count()

    def __init__(self, name, r, w):
        self.name, self.r, self.w = name, r, w     # channel read from / written to (or None)
        self.owners = set()                         # processes holding it open


class Channel:
    def __init__(self, cap):
        self.buf, self.cap = bytearray(), cap
        self.writer = self.reader = None            # End


class Proc:
    def __init__(self, os_, name, parent):
        self.os, self.name, self.parent = os_, name, parent
        self.handles = set()
        self.exitcode = None
        self.started = parent is None
        self.task = None
        self.plan = {}
        self.children = []
        self.rows = 0

    @property
    def alive(self):
        return self.started and self.exitcode is None


class SimOS:
    def __init__(self, ctx, clock, capacity=65536, plans=None):
        self.ctx, self.clock = ctx, clock
        self.sched = Sched(ctx, clock)
        self.capacity = capacity
        self.main = Proc(self, "parent", None)
        self.main.task = self.sched.main
        self.sched.main.data["proc"] = self.main
        self.procs = []
        self.starts = 0
        self.plans = plans if plans is not None else (lambda k: {})    # fault plan of the k-th started process
        self.nproc = self.npipe = 0
        self.peak_alive = 0
        self.in_objective = set()
        self.peak_busy = 0

    # ------------------------------------------------------------------ who runs
    def proc(self):
        return self.sched.cur.data["proc"]

    def in_child(self):
        return self.proc() is not self.main

    def alive(self):
        return [p for p in self.procs if p.alive]

    # ------------------------------------------------------------------ processes
    def make_process(self, group=None, target=None, name=None, args=(), kwargs=None, daemon=None, **k):
        self.nproc += 1
        return SimProcess(self, target, name or "Process-%d" % self.nproc, tuple(args), dict(kwargs or {}), daemon)

    def start(self, sp):
        parent = self.proc()
        k = self.starts
        self.starts += 1
        plan = self.plans(k)
        if plan.get("start"):
            self.ctx.fault("worker:start-failed", sp.name)
            e = plan["start"]
            if e == "daemonic":
                raise AssertionError("daemonic processes are not allowed to have children")
            if e == "pickle":
                raise AttributeError("Can't pickle local object 'spawn.<locals>.fun'")
            if e == "memory":
                raise MemoryError()
            e = errno.ENOMEM if e == "ENOMEM" else errno.EAGAIN
            raise OSError(e, os.strerror(e))
        p = Proc(self, "w%d" % k, parent)
        p.started, p.plan, p.sp = True, plan, sp
        p.handles = set(parent.handles)
        for e in p.handles:
            e.owners.add(p)
        parent.children.append(p)
        self.procs.append(p)
        target = sp._target
        def mine(a):
            """what the child sees of an argument: its own handle, its own copy of the data"""
            if isinstance(a, SimConn):
                return a._clone()
            if isinstance(a, (tuple, list)):
                return type(a)(mine(v) for v in a)
            return copy.deepcopy(a) if isinstance(a, (np.ndarray, dict, set, bytearray)) else a
        args = tuple(mine(a) for a in sp._args)
        kwargs = {n: mine(a) for n, a in sp._kwargs.items()}
        sp._target = sp._args = sp._kwargs = None
        parent.task.stream.save()
        p.task = self.sched.spawn(p.name, lambda: self._child(p, target, args, kwargs), stream=parent.task.stream.fork())
        p.task.data["proc"] = p
        self.peak_alive = max(self.peak_alive, len(self.alive()))
        self.ctx.ev("start", p.name)
        self.sched.pause("start")
        return p

    def _child(self, p, target, args, kwargs):
        code = 1
        try:
            if p.plan.get("crash") == "begin":
                self.crash("before-work")
            target(*args, **kwargs)
            if p.plan.get("crash") == "end":
                self.crash("after-report")
            code = 0
        except SimStop:
            raise
        except Crash:
            code = -9
        except SystemExit as e:
            code = e.code if isinstance(e.code, int) else (0 if e.code is None else 1)
        except BaseException:
            code = 1
        self.exit(p, code)

    def crash(self, where):
        p = self.proc()
        if p is self.main:
            raise HarnessError("crash of the parent")
        self.ctx.fault("worker:crash-" + where, p.name)
        raise Crash()

    def exit(self, p, code):
        if p.exitcode is not None:
            return
        p.exitcode = code
        self.in_objective.discard(p)
        for e in list(p.handles):
            e.owners.discard(p)
        p.handles.clear()
        self.ctx.ev("exit", p.name, code)

    def kill(self, p, sig):
        if p.exitcode is None:
            self.exit(p, -sig)
            self.sched.kill(p.task)

    # ------------------------------------------------------------------ the objective's seam
    def busy(self, dt):
        """the calling process is inside the objective for dt simulated seconds"""
        p = self.proc()
        p.rows += 1
        if p.plan.get("crash") == "row" and p.rows - 1 >= p.plan.get("at", 0):
            self.crash("in-objective")
        self.in_objective.add(p)
        self.peak_busy = max(self.peak_busy, len(self.in_objective))
        if p.plan.get("stall"):
            self.ctx.fault("worker:stall", p.name)
            dt += p.plan["stall"]
        self.sched.sleep(dt, "objective")
        self.in_objective.discard(p)

    # ------------------------------------------------------------------ pipes
    def make_pipe(self, duplex=True):
        p = self.proc()
        k = self.npipe
        self.npipe += 1
        a, b = Channel(self.capacity), Channel(self.capacity)
        if duplex:
            e1, e2 = End("pipe%d.0" % k, a, b), End("pipe%d.1" % k, b, a)
            a.reader, a.writer, b.reader, b.writer = e1, e2, e2, e1
        else:
            e1, e2 = End("pipe%d.r" % k, a, None), End("pipe%d.w" % k, None, a)
            a.reader, a.writer = e1, e2
        for e in (e1, e2):
            e.owners.add(p)
            p.handles.add(e)
        return SimConn(self, e1, p), SimConn(self, e2, p)

    def wait(self, objs, timeout=None):
        objs = list(objs)

        def ready(o):
            if isinstance(o, SimConn):
                return o._readable()
            if isinstance(o, Sentinel):
                return not o.p.alive
            raise HarnessError("wait on %r" % (o,))
        self.sched.block(lambda: any(ready(o) for o in objs), "wait", timeout)
        return [o for o in objs if ready(o)]


class Sentinel:
    def __init__(self, p):
        self.p = p


class SimProcess:
    def __init__(self, os_, target, name, args, kwargs, daemon):
        self._os, self._target, self.name, self._args, self._kwargs, self.daemon = os_, target, name, args, kwargs, bool(daemon)
        self._p = None

    def start(self):
        assert self._p is None, 'cannot start a process twice'
        self._p = self._os.start(self)

    def _check(self):
        assert self._p is not None, 'can only join a started process'

    def join(self, timeout=None):
        self._check()
        self._os.sched.block(lambda: not self._p.alive, "end of " + self._p.name, timeout)

    def is_alive(self):
        if self._p is None:
            return False
        self._os.sched.pause("is_alive")
        return self._p.alive

    def terminate(self):
        if self._p is None:
            raise AttributeError("'NoneType' object has no attribute 'terminate'")
        self._os.ctx.ev("terminate", self._p.name)
        self._os.kill(self._p, 15)

    def kill(self):
        if self._p is None:
            raise AttributeError("'NoneType' object has no attribute 'kill'")
        self._os.kill(self._p, 9)

    def close(self):
        if self._p is not None and self._p.alive:
            raise ValueError("Cannot close a process while it is still running.")

    @property
    def exitcode(self):
        return None if self._p is None else self._p.exitcode

    @property
    def pid(self):
        return None if self._p is None else 1000 + int(self._p.name[1:])
    ident = pid

    @property
    def sentinel(self):
        return Sentinel(self._p)


class SimConn:
    """One end of a pipe as seen by whichever simulated process uses it."""
    def __init__(self, os_, end, owner, clone=False):
        self._os, self._e, self._owner, self._is_clone = os_, end, owner, clone

    def _clone(self):
        return SimConn(self._os, self._e, None, True)

    def _check(self):
        if self._e not in self._os.proc().handles:
            raise OSError("handle is closed")

    @property
    def closed(self):
        return self._e not in self._os.proc().handles

    @property
    def readable(self):
        return self._e.r is not None

    @property
    def writable(self):
        return self._e.w is not None

    def fileno(self):
        self._check()
        return 10000 + id(self._e) % 1000

    def close(self):
        p = self._os.proc()
        if self._e in p.handles:
            p.handles.discard(self._e)
            self._e.owners.discard(p)

    def __del__(self):
        try:
            if not self._is_clone and self._owner is not None and self._owner.alive and self._e in self._owner.handles:
                self._owner.handles.discard(self._e)
                self._e.owners.discard(self._owner)
        except Exception:
            pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    # ------------------------------------------------------------------ data
    def _put(self, data):
        os_, ch = self._os, self._e.w
        if ch is None:
            raise OSError("connection is read-only")
        p = os_.proc()
        crash = p.plan.get("crash")
        if crash == "before-send":
            os_.crash("before-report")
        cut = len(data) // 2 if crash == "mid-send" else None
        i = 0
        while i < len(data):
            if not ch.reader.owners:
                raise BrokenPipeError(errno.EPIPE, "Broken pipe")
            room = ch.cap - len(ch.buf)
            if room <= 0:
                os_.ctx.probe("pipe-full")
                os_.sched.block(lambda: len(ch.buf) < ch.cap or not ch.reader.owners, "room in " + self._e.name)
                continue
            n = min(room, len(data) - i)
            if cut is not None and i + n >= cut:
                n = max(1, cut - i)
                ch.buf += data[i:i + n]
                os_.crash("mid-report")
            ch.buf += data[i:i + n]
            i += n
            os_.sched.pause("write")

    def _get(self, n, first):
        os_, ch = self._os, self._e.r
        if ch is None:
            raise OSError("connection is write-only")
        out = bytearray()
        while len(out) < n:
            if not ch.buf:
                if not ch.writer.owners:
                    if first and not out:
                        raise EOFError
                    raise OSError("got end of file during message")
                os_.sched.block(lambda: ch.buf or not ch.writer.owners, "data in " + self._e.name)
                continue
            k = min(n - len(out), len(ch.buf))
            out += ch.buf[:k]
            del ch.buf[:k]
        return bytes(out)

    def _readable(self):
        ch = self._e.r
        return bool(ch.buf) or not ch.writer.owners

    def send_bytes(self, b, offset=0, size=None):
        self._check()
        b = bytes(b)[offset:] if size is None else bytes(b)[offset:offset + size]
        self._put(struct.pack("!q", len(b)) + b)

    def recv_bytes(self, maxlength=None):
        self._check()
        n, = struct.unpack("!q", self._get(8, True))
        return self._get(n, False)

    def send(self, obj):
        self._check()
        self.send_bytes(bytes(ForkingPickler.dumps(obj)))

    def recv(self):
        return pickle.loads(self.recv_bytes())

    def poll(self, timeout=0.0):
        self._check()
        if timeout == 0 or timeout == 0.0:
            self._os.sched.pause("poll")
            return self._readable()
        return self._os.sched.block(self._readable, "data in " + self._e.name, timeout)
