"""Choices, run context, violations. Everything random in a run comes from one Choices object."""
import collections, hashlib, random


class Violation(Exception):
    """The property is broken. kind: stable class of the violation (what the shrinker preserves)."""
    def __init__(self, kind, msg):
        super().__init__("%s: %s" % (kind, msg))
        self.kind, self.msg = kind, msg


class HarnessError(Exception):
    pass


class SimInterrupt(KeyboardInterrupt):
    """Ctrl-C delivered by the simulator at a seam."""


class Choices:
    """A stream of integer choices. 0 is always the simplest alternative (no fault, first task, ...).

    seed   : fresh pseudo-random choices, recorded
    replay : a recorded list; exhausted -> 0, out of range -> clipped
    """
    def __init__(self, seed=None, replay=None):
        self.rng = random.Random(seed) if replay is None else None
        self.replay = list(replay) if replay is not None else None
        self.rec = []

    def draw(self, n):
        if n <= 1:
            return 0
        i = len(self.rec)
        if self.replay is None:
            v = self.rng.randrange(n)
        else:
            v = self.replay[i] if i < len(self.replay) else 0
            if v >= n:
                v = n - 1
        self.rec.append(v)
        return v

    def chance(self, p):
        """True with probability p; the low choices are False."""
        return self.draw(1000) >= 1000 - int(round(p * 1000))

    def pick(self, seq):
        return seq[self.draw(len(seq))]

    def weighted(self, pairs):
        """pairs: [(weight, value)]; list the simplest first."""
        k = self.draw(sum(w for w, _ in pairs))
        for w, v in pairs:
            if k < w:
                return v
            k -= w

    def between(self, lo, hi):
        return lo + self.draw(hi - lo + 1)

    def unit(self):
        """a dyadic float in [0,1)"""
        return self.draw(1 << 16) / float(1 << 16)

    def perm(self, n):
        p = list(range(n))
        for i in range(n - 1):
            j = i + self.draw(n - i)
            p[i], p[j] = p[j], p[i]
        return p

    def subset(self, seq, p=0.5):
        return [s for s in seq if self.chance(p)]


class Ctx:
    """State of one simulated execution: choices, event log, counters."""
    LOG_CAP = 4000

    def __init__(self, choices, tier="quick"):
        self.ch = choices
        self.tier = tier
        self.log = []
        self.digest = hashlib.sha256()
        self.faults = collections.Counter()     # fault kind -> times it actually fired
        self.probes = collections.Counter()     # rare conditions reached
        self.configured = collections.Counter()
        self.sig = []                           # abstract trace (op kinds + fault kinds)
        self.simtime = 0.0
        self.config = {}
        self.nontrivial = False
        self.failed = []                        # violations noticed inside callbacks (where an exception could be swallowed)
        self.index = 0
        self.scratch = None

    def bad(self, kind, msg):
        self.failed.append((kind, msg))

    def ev(self, what, *detail):
        """record an event. Never draws choices nor reads clocks."""
        line = what if not detail else what + " " + " ".join(_fmt(d) for d in detail)
        self.digest.update(line.encode() + b"\n")
        self.sig.append(what)
        if len(self.log) < self.LOG_CAP:
            self.log.append(line)

    def fault(self, kind, *detail):
        self.faults[kind] += 1
        self.nontrivial = True
        self.ev("FAULT:" + kind, *detail)

    def probe(self, kind):
        self.probes[kind] += 1
        self.nontrivial = True

    def signature(self):
        h = hashlib.sha256()
        h.update(repr(sorted(self.config.items(), key=lambda t: t[0])).encode())
        h.update("|".join(self.sig[:400]).encode())
        return h.hexdigest()[:16]


def _fmt(d):
    try:
        import numpy as np
        if isinstance(d, np.ndarray):
            return np.array2string(d, precision=17, threshold=60, max_line_width=10 ** 6).replace("\n", "")
        if isinstance(d, (float, np.floating)):
            return repr(float(d))
    except Exception:
        pass
    return str(d)


def require(cond, kind, msg):
    if not cond:
        raise Violation(kind, msg() if callable(msg) else msg)
