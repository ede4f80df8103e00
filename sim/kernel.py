"""The simulation kernel: one run, its event log, faults, abort points and thread scheduler."""
import hashlib
import os
import random
import sys
import threading
import time
from collections import Counter

from . import seams
from .seams import CLOCK, RNG, real


class Violation(Exception):
    def __init__(self, tag, msg):
        super().__init__("%s: %s" % (tag, msg))
        self.tag = tag
        self.msg = msg


class SimCrash(BaseException):
    """The simulated process dies here."""


class SimKilled(BaseException):
    """The run is over; unwind this task."""


class StoreError(Exception):
    """Failure reported by a simulated store."""


ERRS = {
    "store": lambda: StoreError("simulated store failure"),
    "os": lambda: OSError(5, "simulated I/O error"),
    "key": lambda: KeyError("simulated missing entry"),
    "conn": lambda: ConnectionError("simulated connection loss"),
    "timeout": lambda: TimeoutError("simulated timeout"),
    "mem": lambda: MemoryError("simulated allocation failure"),
    "val": lambda: ValueError("simulated bad answer"),
    "intr": lambda: KeyboardInterrupt("simulated interrupt"),
    "crash": lambda: SimCrash(),
}


class Outcome:
    __slots__ = ("ok", "value", "exc", "crashed", "fired")

    def __init__(self, ok, value=None, exc=None, crashed=False, fired=0):
        self.ok, self.value, self.exc, self.crashed, self.fired = ok, value, exc, crashed, fired

    @property
    def err(self):
        return type(self.exc).__name__ if self.exc is not None else None

    def __repr__(self):
        if self.ok:
            return "returned %s" % short(self.value)
        if self.crashed:
            return "crashed"
        return "raised %s(%s)" % (type(self.exc).__name__, str(self.exc)[:120])


def short(v, n=60):
    if isinstance(v, (bytes, bytearray)):
        s = bytes(v).hex()
        return "%s:%s" % (len(v), s if len(s) <= n else s[:n] + "..")
    s = repr(v)
    if " object at 0x" in s:
        s = s.split(" object at 0x")[0] + ">"
    return s if len(s) <= 2 * n else s[: 2 * n] + ".."


class Sim:
    """One simulated run."""

    MAX_TRACE = 3000

    def __init__(self, plan, keep_trace=False):
        self.plan = plan
        self.keep = keep_trace
        self.h = hashlib.blake2b(digest_size=16)
        self.sig = hashlib.blake2b(digest_size=8)  # interleaving signature
        self.trace = []
        self.nev = 0
        self.faults = Counter()
        self.probes = Counter()
        self.ops = Counter()
        self.findings = []
        self.decisions = []
        self.nsteps = 0
        self.switches = 0
        self.yields = 0
        self.sched = None
        self.stores = []
        self.fs = None
        CLOCK.reset(plan.get("t0", 1_600_000_000.0))
        CLOCK.tick = plan.get("tick", 0.0)
        tz = plan.get("tz", "UTC0")
        if os.environ.get("TZ") != tz:
            os.environ["TZ"] = tz
            time.tzset()
        RNG.reset("%s" % plan.get("seed", 0))
        seams._NAMES.n = 0
        self.P = seams.load_pymt()
        self._lines = None  # (countdown, error) for aborts
        self._line_fired = 0

    # ------------------------------------------------------------- log
    def log(self, *a):
        self.nev += 1
        s = " ".join(x if isinstance(x, str) else short(x) for x in a)
        self.h.update(s.encode("utf-8", "backslashreplace"))
        self.h.update(b"\n")
        if self.keep and len(self.trace) < self.MAX_TRACE:
            self.trace.append("#%d t=%.6f %s" % (self.nev, CLOCK.now, s))

    def digest(self):
        return self.h.hexdigest()

    def fail(self, tag, msg):
        self.log("VIOLATION", tag, msg)
        raise Violation(tag, msg)

    def check(self, cond, tag, msg):
        if not cond:
            self.fail(tag, msg() if callable(msg) else msg)

    def finding(self, fid, msg):
        """A recorded genuine defect was observed; the run goes on."""
        self.log("FINDING", fid, msg)
        self.findings.append((fid, msg))

    def fault(self, kind):
        self.faults[kind] += 1
        self.sig.update(kind.encode())

    def probe(self, name, n=1):
        self.probes[name] += n

    # ------------------------------------------------------------- calls
    def call(self, fn, *a, **k):
        """Run an operation of the code under test and record how it ended."""
        before = self.fired()
        try:
            v = fn(*a, **k)
            out = Outcome(True, v)
        except SimCrash as e:
            out = Outcome(False, exc=e, crashed=True)
        except (Violation, SimKilled, HarnessError):
            raise
        except (Exception, KeyboardInterrupt) as e:
            out = Outcome(False, exc=e)
            out.exc.__traceback__ = None
        out.fired = self.fired() - before
        return out

    def fired(self):
        n = self._line_fired + RNG.fired
        for s in self.stores:
            n += s.fired
        if self.fs is not None:
            n += self.fs.fired
        return n

    # ------------------------------------------------------------- line hooks
    def arm_line(self, n, err):
        self._lines = [n, err]

    def disarm_line(self):
        self._lines = None

    def on_line(self):
        if self._lines is not None:
            self._lines[0] -= 1
            if self._lines[0] < 0:
                err = self._lines[1]
                self._lines = None
                self._line_fired += 1
                self.fault("abort-line-" + err)
                if err == "crash" and self.fs is not None:
                    self.fs.dead = True
                raise ERRS[err]()
        s = self.sched
        if s is not None and s.lines:
            s.yield_point("l")

    def tracing(self):
        return _Tracing(self)

    # ------------------------------------------------------------- thread tasks
    def run_tasks(self, tasks):
        """Run callables as scheduled threads; `plan['sched']` decides every switch."""
        sched = Scheduler(self, self.plan.get("sched") or {"mode": "list", "d": []})
        self.sched = sched
        seams.ACTIVE_SCHED[0] = sched
        try:
            sched.run(tasks)
        finally:
            seams.ACTIVE_SCHED[0] = None
            self.sched = None
            self.decisions = sched.decisions
            self.switches += sched.switches
            self.yields += sched.n

    def yield_point(self, kind):
        s = self.sched
        if s is not None:
            s.yield_point(kind)


class HarnessError(Exception):
    pass


class _Tracing:
    """Calls the kernel at every line of the code under test executed by this thread."""

    def __init__(self, sim):
        self.sim = sim

    def __enter__(self):
        sim = self.sim
        pkg = seams.PKG + os.sep
        cache = {}

        def local(frame, event, arg):
            if event == "line":
                sim.on_line()
            return local

        def glob(frame, event, arg):
            code = frame.f_code
            r = cache.get(code)
            if r is None:
                fn = code.co_filename
                r = cache[code] = fn.startswith(pkg) and code.co_name != "<module>"
            return local if r else None

        self.old = sys.gettrace()
        sys.settrace(glob)

    def __exit__(self, *a):
        sys.settrace(self.old)


class Scheduler:
    """Parks and releases real threads one at a time; every switch is a recorded decision."""

    def __init__(self, sim, spec):
        self.sim = sim
        self.lines = bool(spec.get("lines"))
        self.mode = spec["mode"]
        self.cap = spec.get("cap", 200000)
        if self.mode == "seed":
            self.rng = random.Random(str(spec["seed"]))
            self.p = spec.get("p", 0.1)
            self.points = None
            if spec.get("points") is not None:  # a few preemptions at drawn positions
                self.points = set(
                    self.rng.randrange(spec["span"]) for _ in range(spec["points"])
                )
        else:
            self.map = {n: t for n, t in spec["d"]}
        self.n = 0
        self.cur = None
        self.decisions = []
        self.switches = 0
        self.killed = False
        self.error = None
        self.active = False

    def _decide(self, forced):
        n = self.n
        self.n += 1
        cand = [t for t in self.runnable if t != self.cur]
        if not cand:
            return None
        if self.mode == "seed":
            if forced:
                t = cand[self.rng.randrange(len(cand))]
            elif n >= self.cap:
                return None
            elif self.points is not None:
                if n not in self.points:
                    return None
                t = cand[self.rng.randrange(len(cand))]
            elif self.rng.random() < self.p:
                t = cand[self.rng.randrange(len(cand))]
            else:
                return None
        else:
            t = self.map.get(n)
            if t is None or t not in cand:
                if not forced:
                    return None
                t = cand[0]
        if not (forced and t == cand[0]):
            self.decisions.append([n, t])
        return t

    def _switch(self, t):
        me = self.cur
        self.cur = t
        self.switches += 1
        self.sim.sig.update(b"s%d>%d;" % (me if me is not None else -1, t))
        return me

    def yield_point(self, kind):
        if not self.active or threading.get_ident() != self.idents.get(self.cur):
            return
        if self.killed:
            raise SimKilled()
        t = self._decide(False)
        if t is None:
            return
        me = self._switch(t)
        self.gates[t].release()
        self.gates[me].acquire()
        if self.killed:
            raise SimKilled()

    def block(self, lock):
        me = self.cur
        self.runnable.remove(me)
        self.blocked.setdefault(id(lock), []).append(me)
        t = self._decide(True)
        if t is None:
            self.error = self.error or Violation("deadlock", "all tasks wait for locks")
            self.killed = True
            self.main.release()
            raise SimKilled()
        self._switch(t)
        self.gates[t].release()
        self.gates[me].acquire()
        if self.killed:
            raise SimKilled()

    def unblock(self, lock):
        for t in self.blocked.pop(id(lock), []):
            self.runnable.append(t)
        self.runnable.sort()

    def run(self, tasks):
        self.gates = [real.Lock() for _ in tasks]
        for g in self.gates:
            g.acquire()
        self.main = real.Lock()
        self.main.acquire()
        self.runnable = list(range(len(tasks)))
        self.blocked = {}
        self.idents = {}
        self.active = True
        threads = []
        old = threading.stack_size(0)

        def body(i, fn):
            self.gates[i].acquire()
            self.idents[i] = threading.get_ident()
            try:
                if not self.killed:
                    if self.lines:
                        with self.sim.tracing():
                            fn()
                    else:
                        fn()
            except SimKilled:
                pass
            except BaseException as e:  # noqa: B902
                if self.error is None:
                    self.error = e
                self.killed = True
            finally:
                if i in self.runnable:
                    self.runnable.remove(i)
                if self.killed:
                    self.main.release() if self.main.locked() else None
                else:
                    t = self._decide(True)
                    if t is None:
                        if any(self.blocked.values()):
                            self.error = Violation("deadlock", "tasks wait for a lock never released")
                            self.killed = True
                        self.main.release()
                    else:
                        self._switch(t)
                        self.gates[t].release()

        for i, fn in enumerate(tasks):
            t = threading.Thread(target=body, args=(i, fn), daemon=True)
            threads.append(t)
            t.start()
        self.cur = None
        first = self._decide(True)
        if first is not None:
            self.cur = first
            self.gates[first].release()
            self.main.acquire()
        self.active = False
        if self.killed:
            for i, t in enumerate(threads):
                while t.is_alive():
                    try:
                        self.gates[i].release()
                    except RuntimeError:
                        pass
                    t.join(0.05)
        else:
            for t in threads:
                t.join()
        threading.stack_size(old)
        if self.error is not None:
            raise self.error
