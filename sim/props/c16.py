"""The progress log records every due iteration with the best so far."""
import errno
import os

from ..campaign import *
ID = "C16"
LEVEL = "exploration"
RUNS = {"quick": 7000, "thorough": 200000}
RULE = ("A run drives one or two output engines through random sequences of recorded batches, with random mixes of loggers and reports, intervals, final records, callers that reuse "
        "their arrays, reports that fail, and a simulated disk that fails at opening, at the n-th write, when full, at closing, or writes only a part. The bytes of every log are "
        "parsed independently and compared with a reference of the turns and of the best values so far.")
REAL = ["GPyOpt.interface.output", "Python's file buffering"]
STUB = ["disk: raw writes below Python's buffers", "the optimizer whose report is written: records the calls, may fail", "clock"]
ASSUMPTIONS = ["rows shorter than Python's file buffer (8 KB; in half of the runs the buffers are made smaller so that they fill up sooner)", "records are not interrupted by signals"]


class StubBO:
    def __init__(self, ctx):
        self.ctx, self.calls, self.fail = ctx, [], False

    def save_report(self, report_file=None):
        self.calls.append(report_file)
        if self.fail:
            self.ctx.fault("report:fails")
            raise OSError(errno.ENOSPC, "report")


class Engine:
    """one output engine and what it must have done"""
    def __init__(self, ctx, tag, fs):
        ch = self.ch = ctx.ch
        self.ctx, self.tag, self.fs = ctx, tag, fs
        self.dir = os.path.join(ctx.scratch, tag)
        os.mkdir(self.dir)
        self.bo = StubBO(ctx)
        out = {"verbosity": False} if ch.chance(0.5) else {}
        self.savers = []
        for k in range(ch.between(1, 4)):
            kind = ch.weighted([(3, "logger"), (1, "report")])
            iv = ch.pick([1, 2, 3, -1])
            fn = "%s%d.%s" % (kind, k, "csv" if kind == "logger" else "txt") if ch.chance(0.8) else None
            name = ch.pick(["Ybest", "log", "file"]) + str(k)
            out[name] = dict(type=kind, interval=iv, filename=fn)
            if kind == "logger":
                out[name].update(content=ch.pick(["ybest", "YBEST"]), format=ch.pick(["csv", "CSV"]))
            self.savers.append(dict(kind=kind, iv=iv, fn=fn, name=name, due=[], sure=[], n=0))
        self.config = {"prjpath": self.dir, "experiment-name": ch.pick(["exp", "a-b"]), "output": out}
        if ch.chance(0.3):
            self.fs.arm(dict(open=ch.pick([errno.EACCES, errno.ENOSPC]), only="logger" if ch.chance(0.5) else tag))
        import copy
        keep = copy.deepcopy(self.config)
        r, self.eng = api(ctx, "engine", lambda: GPyOpt.interface.output.OutputEng(self.config))
        fired = self.fs.disarm()
        for s in self.savers:
            s["skipped"] = s["kind"] == "logger" and not self.files(s)
            require(not s["skipped"] or fired, "no-file", "the log %s was not opened though the disk worked" % s["name"])
        self.X, self.Y = [], []
        self.it = 0
        require(self.config == keep, "config-changed", "building the engine changed its configuration")
        self.dim = ch.between(1, 3)
        self.buf = None

    def files(self, s):
        return [n for n in os.listdir(self.dir) if (n == s["fn"] if s["fn"] else n.startswith(s["name"] + "_" + self.config["experiment-name"] + "_"))]

    def record(self):
        ch, ctx = self.ch, self.ctx
        self.it += ch.pick([1, 1, 2])
        t = round(self.it * 0.37 + ch.unit(), 4)
        n = ch.between(1, 3)
        rs = np.random.RandomState(ch.draw(1 << 20))
        X, Y = rs.randn(n, self.dim), rs.randn(n, 1) * ch.pick([1.0, 1e-6, 1e9])
        if ch.chance(0.1):
            Y[:] = np.round(Y)      # ties
        if ch.chance(0.05):
            Y[0] = np.inf
        final = ch.chance(0.12)
        self.X.append(X.copy())
        self.Y.append(Y.copy())
        AX, AY = np.vstack(self.X), np.vstack(self.Y)
        best = float(AY.min())
        where = [AX[i].tolist() for i in range(len(AY)) if AY[i, 0] == best]
        plan = None
        if ch.chance(0.35):
            plan = {}
            k = ch.pick(["write", "write", "full"])
            if k == "write":
                plan["write_at"] = ch.pick([0, 1])
                if ch.chance(0.6):
                    plan["write_n"] = 1
            else:
                plan["full_at"] = ch.pick([0, 5, 30])
            if ch.chance(0.3):
                plan["short"] = 2
            if ch.chance(0.4):
                plan["only"] = ch.pick([s["fn"] or s["name"] for s in self.savers])
        elif ch.chance(0.3):
            plan = dict(short=ch.pick([2, 5]))
        self.bo.fail = ch.chance(0.15)
        calls0 = len(self.bo.calls)
        # whose turn is it
        turn = []
        for s in self.savers:
            if final:
                mine = s["iv"] == -1
            else:
                s["n"] += 1
                mine = s["iv"] > 0 and s["n"] % s["iv"] == 0
            if mine:
                turn.append(s)
        gx, gy = (X, Y)
        if ch.chance(0.25):
            if self.buf is None or self.buf[0].shape != X.shape:
                self.buf = (np.empty_like(X), np.empty_like(Y))
            self.buf[0][...], self.buf[1][...] = X, Y
            gx, gy = self.buf
            ctx.fault("caller:reuses-its-arrays")
        x0, y0 = gx.copy(), gy.copy()
        self.fs.arm(plan or {})
        r, v = api(ctx, "append", lambda: self.eng.append_iter(self.it, t, gx, gy, self.bo, final=final), (OSError,))
        fired = self.fs.disarm()
        require(np.array_equal(gx, x0) and np.array_equal(gy, y0), "arguments-changed", "recording a batch changed the caller's arrays")
        failed_report = self.bo.fail and any(s["kind"] == "report" for s in turn)
        require(r == "ok" or fired or failed_report, "error-without-fault", "recording an iteration failed with %s though nothing failed below it" % v)
        if r == "err":
            ctx.probe("append-failed")
        for s in turn:
            if s["kind"] == "logger":
                row = (self.it, t, best, where)
                s["due"].append(row)
                s["sure"].append(r == "ok")
        want = [s for s in turn if s["kind"] == "report"]
        got = self.bo.calls[calls0:]
        require(len(got) == len(want), "report-turns", "iteration %d%s: %d reports were written, %d were due" % (self.it, " (final)" if final else "", len(got), len(want)))
        for g, s in zip(got, want):
            require(os.path.dirname(g) == self.dir and (s["fn"] is None or os.path.basename(g) == s["fn"]), "report-file", "the report went to %s" % g)
        if ch.chance(0.4):
            gx[...] = 1e6
            gy[...] = -1e6
            ctx.fault("caller:overwrites-its-arrays")

    def finish(self):
        ch, ctx = self.ch, self.ctx
        plan = {}
        if ch.chance(0.25):
            plan = dict(close=errno.EIO)
            if ch.chance(0.5):
                plan["only"] = ch.pick([s["fn"] or s["name"] for s in self.savers])
        elif ch.chance(0.15):
            plan = dict(write_at=0)
        self.fs.arm(plan)
        r, v = api(ctx, "close", lambda: self.eng.close(), (OSError,))
        fired = self.fs.disarm()
        require(r == "ok" or fired, "error-without-fault", "closing failed with %s though the disk worked" % v)
        for s in self.savers:
            if s["kind"] == "logger":
                self.verify(s, r == "ok", fired)

    def verify(self, s, closed, fired):
        names = self.files(s)
        if s["skipped"]:
            self.ctx.probe("log-skipped")
            return
        with seams.REAL["open"](os.path.join(self.dir, names[0]), "rb") as f:
            text = f.read().decode()
        lines = text.split("\n")
        tail = lines.pop()
        where = "log %s (interval %d)" % (s["name"], s["iv"])
        if closed:
            require(tail == "", "torn-row", "%s ends in the middle of a row although closing it succeeded: %r" % (where, tail))
        if not lines:
            require(not closed or not any(s["sure"]), "lost-rows", "%s is empty, %d rows were recorded" % (where, sum(map(bool, s["sure"]))))
            return
        head = ["iteration", "time(sec)", "objective"] + ["input[%d]" % (i + 1) for i in range(self.dim)]
        require(lines[0].split(",") == head, "header", "%s starts with %r" % (where, lines[0]))
        k = 0
        for i, l in enumerate(lines[1:]):
            t = l.split(",")
            try:
                v = [float(a) for a in t]
            except ValueError:
                raise Violation("corrupt-row", "%s: line %d is %r" % (where, i + 2, l))
            require(len(v) == 3 + self.dim, "corrupt-row", "%s: line %d is %r" % (where, i + 2, l))
            # rows whose recording failed may be missing
            while k < len(s["due"]) and s["due"][k][0] != v[0] and not s["sure"][k]:
                k += 1
            require(k < len(s["due"]) and v[0] == s["due"][k][0], "unexpected-row", lambda: "%s: row %r; due were the iterations %s" % (where, l, [d[0] for d in s["due"]]))
            it, tm, best, locs = s["due"][k]
            require(v[1] == tm, "time", "%s: iteration %d has time %r, it was %r" % (where, it, v[1], tm))
            require(v[2] == best, "best", "%s: iteration %d has best value %r, so far it is %r" % (where, it, v[2], best))
            require(v[3:] in locs, "best-location", "%s: iteration %d has best location %s, it is %s" % (where, it, v[3:], locs))
            k += 1
        if closed:
            left = [s["due"][j][0] for j in range(k, len(s["due"])) if s["sure"][j]]
            require(not left, "lost-rows", "%s: iterations %s were recorded without an error but are not in the file" % (where, left))


def run(ctx):
    ch = ctx.ch
    fs = seams.SimFS(ctx, ctx.scratch)
    seams.W.fs = fs
    if ch.chance(0.5):
        fs.buffer = 288              # they fill up sooner
    engines = [Engine(ctx, "e%d" % k, fs) for k in range(ch.weighted([(3, 1), (1, 2)]))]
    for k in range(ch.between(200, 420) if ch.chance(0.015) else ch.between(1, 9 if fs.buffer is None else 20)):
        ch.pick(engines).record()
        ctx.clock.advance(1.0 + ch.unit())
    for e in engines:
        e.finish()
