"""SimStore: the dict-like store handed to tries, with faults, durability and damage."""
from collections.abc import MutableMapping

from .kernel import ERRS, SimCrash, StoreError


class SimStore(MutableMapping):
    """A key-value store under simulator control.

    `mem` is what the running process sees.  With `journaled`, writes reach `disk` only at
    `sync()`; `crash(keep)` drops `mem` and applies the chosen pending writes.
    A fault is {"on": op class, "n": how many such accesses to let pass, "k": "before"|"after",
    "e": error name, "len": how many accesses fail}.
    """

    READS = ("get", "has", "len", "iter")

    def __init__(self, sim, name, journaled=False, data=None):
        self.sim = sim
        self.name = name
        self.mem = dict(data or {})
        self.disk = dict(self.mem)
        self.pending = []
        self.journaled = journaled
        self.armed = None
        self.fired = 0
        self.reads = 0
        self.writes = 0
        self.dels = 0
        self.dead = False
        self.readers = None  # when a list: keys read
        self.on_access = None
        sim.stores.append(self)

    # ------------------------------------------------------------- faults
    def arm(self, f):
        self.armed = dict(f) if f else None

    def disarm(self):
        self.armed = None

    def _match(self, op):
        on = self.armed.get("on", "any")
        return (
            on == "any"
            or on == op
            or (on == "read" and op in self.READS)
            or (on == "write" and op in ("set", "del"))
        )

    def _hit(self, op, when):
        a = self.armed
        if a is None or not self._match(op):
            return
        if when == "before":
            a["n"] -= 1
        if a["n"] >= 0 or a.get("k", "before") != when:
            return
        left = a.get("len", 1)
        if a["n"] < -left:
            return
        if op in self.READS and when == "after":
            return
        self.fired += 1
        self.sim.fault("%s-%s-%s-%s" % (self.name, op, when, a.get("e", "store")))
        raise ERRS[a.get("e", "store")]()

    def _access(self, op, key=None):
        if self.dead:
            raise SimCrash()
        self.sim.yield_point("s")
        if self.on_access is not None:
            self.on_access(op, key)
        self._hit(op, "before")

    def _done(self, op):
        if self.armed is not None:
            self._hit(op, "after")
        self.sim.yield_point("s")

    # ------------------------------------------------------------- mapping
    def __getitem__(self, key):
        self._access("get", key)
        self.reads += 1
        if self.readers is not None:
            self.readers.append(key)
        v = self.mem[key]
        self._done("get")
        return v

    def __setitem__(self, key, value):
        self._access("set", key)
        self.writes += 1
        key = bytes(key) if isinstance(key, bytearray) else key
        self.mem[key] = value
        if self.journaled:
            self.pending.append(("set", key, value))
        else:
            self.disk[key] = value
        self._done("set")

    def __delitem__(self, key):
        self._access("del", key)
        self.dels += 1
        del self.mem[key]
        if self.journaled:
            self.pending.append(("del", key, None))
        else:
            self.disk.pop(key, None)
        self._done("del")

    def __contains__(self, key):
        self._access("has", key)
        if self.readers is not None:
            self.readers.append(key)
        r = key in self.mem
        self._done("has")
        return r

    def __len__(self):
        self._access("len")
        r = len(self.mem)
        self._done("len")
        return r

    def __iter__(self):
        self._access("iter")
        return iter(self.mem)

    # ------------------------------------------------------------- durability
    def sync(self):
        self.disk = dict(self.mem)
        self.pending = []

    def crash(self, keep):
        """Lose the process; of the pending writes only those chosen by `keep(i)` survive."""
        d = dict(self.disk)
        lost = kept = 0
        for i, (op, k, v) in enumerate(self.pending):
            if keep(i):
                kept += 1
                if op == "set":
                    d[k] = v
                else:
                    d.pop(k, None)
            else:
                lost += 1
        self.mem = d
        self.disk = dict(d)
        self.pending = []
        self.dead = False
        self.armed = None
        return kept, lost


class Faults:
    """Arms the faults of one step and disarms whatever is left when it ends."""

    def __init__(self, sim, stores, spec):
        self.sim = sim
        self.stores = stores
        self.spec = spec
        self.trace = None

    def __enter__(self):
        for f in self.spec or ():
            if f.get("s") == "line":
                self.sim.arm_line(f["n"], f.get("e", "mem"))
                self.trace = self.sim.tracing()
                self.trace.__enter__()
            else:
                self.stores[f["s"]].arm(f)
        return self

    def __exit__(self, *a):
        if self.trace is not None:
            self.trace.__exit__()
        self.sim.disarm_line()
        for s in self.stores.values():
            s.disarm()
