"""A baton scheduler: simulated tasks are threads of which exactly one ever runs; every switch is a choice."""
import random as _random
import threading

import numpy as np


class SimStop(BaseException):
    """unwinds a task after the run was decided (deadlock, step limit). Not an Exception: cannot be swallowed."""


class Task:
    def __init__(self, sched, name, fn=None, stream=None):
        self.sched, self.name, self.fn = sched, name, fn
        self.sem = threading.Semaphore(0)
        self.ready = lambda: True        # may this task run now?
        self.wake = None                 # or: it sleeps until this instant
        self.why = "start"
        self.dead = False
        self.error = None
        self.result = None
        self.stream = stream             # tasks with the same stream object share one numpy/random state
        self.data = {}

    def runnable(self, now):
        if self.dead:
            return False
        if self.wake is not None and self.wake <= now:
            return True
        return bool(self.ready())


class Stream:
    """state of the global random generators of one simulated process (or of one thread with its own stream)"""
    def __init__(self, state=None):
        self.state = state if state is not None else (np.random.get_state(), _random.getstate())

    def save(self):
        self.state = (np.random.get_state(), _random.getstate())

    def load(self):
        np.random.set_state(self.state[0])
        _random.setstate(self.state[1])

    def fork(self):
        return Stream(self.state)


class Sched:
    MAX_SWITCHES = 200000

    def __init__(self, ctx, clock, name="main"):
        self.ctx, self.clock = ctx, clock
        self.main = Task(self, name, stream=Stream())
        self.tasks = [self.main]
        self.cur = self.main
        self.stopped = None             # reason, once the run is decided
        self.switches = 0
        self.trace = True

    # ------------------------------------------------------------------ tasks
    def spawn(self, name, fn, stream=None):
        t = Task(self, name, fn, stream if stream is not None else self.cur.stream)
        self.tasks.append(t)
        th = threading.Thread(target=self._body, args=(t,), daemon=True)
        t.thread = th
        th.start()
        return t

    def _body(self, t):
        t.sem.acquire()
        try:
            t.result = t.fn()
        except SimStop:
            pass
        except BaseException as e:
            t.error = e
        self.finish(t)

    def finish(self, t):
        """t is over (it may be the running task); never returns to it if it is."""
        t.dead = True
        if t is self.cur:
            self._dispatch(leaving=True)

    def kill(self, t):
        """t never runs again (its thread stays parked)."""
        t.dead = True

    # ------------------------------------------------------------------ blocking
    def pause(self, why="pause"):
        """a point where any runnable task may continue"""
        self.block(lambda: True, why)

    def sleep(self, dt, why="sleep"):
        t = self.cur
        if self.stopped:
            raise SimStop()
        t.wake = self.clock.mono + max(0.0, dt)
        self.block(lambda: False, why)

    def block(self, ready, why, timeout=None):
        """wait until ready(). With a timeout: True if ready, False if time ran out."""
        t = self.cur
        if self.stopped:
            raise SimStop()
        t.ready, t.why = ready, why
        if timeout is not None:
            t.wake = self.clock.mono + max(0.0, timeout)
        self._dispatch()
        t.wake = None
        if self.stopped and t is self.main:
            raise SimStop()
        ok = bool(t.ready())
        t.ready, t.why = (lambda: True), "running"
        return ok

    def stop(self, reason):
        self.stopped = reason
        for t in self.tasks:
            if t is not self.main:
                t.dead = True

    def _dispatch(self, leaving=False):
        me = self.cur
        self.switches += 1
        if self.switches > self.MAX_SWITCHES:
            self.stop("step limit of the scheduler reached (livelock)")
        while True:
            if self.stopped:
                nxt = self.main
                break
            run = [t for t in self.tasks if t.runnable(self.clock.mono)]
            if run:
                nxt = run[self.ctx.ch.draw(len(run))]
                break
            sleepers = [t.wake for t in self.tasks if not t.dead and t.wake is not None]
            if sleepers:
                self.clock.advance(max(0.0, min(sleepers) - self.clock.mono))
                continue
            self.stop("nobody can continue: " + ", ".join("%s waits for %s" % (t.name, t.why) for t in self.tasks if not t.dead))
        if nxt is me and not leaving:
            return
        if me.stream is not nxt.stream:
            me.stream.save()
            nxt.stream.load()
        if self.trace:
            self.ctx.ev("switch", nxt.name)
        self.cur = nxt
        nxt.sem.release()
        if not leaving:
            me.sem.acquire()
