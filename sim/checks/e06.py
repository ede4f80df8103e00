"""E06: equality and hash values follow the contents."""
from .. import gen, keyworld, ref
from ..kernel import short
from ..seams import CLOCK
from ..storage import Faults, SimStore
from ..world import mkval, sim_keys

RUNS = {"quick": 14000, "thorough": 140000}
RULE = ("Two to four objects of one kind (tries, full stores, Merkle trees, key pairs, proof records, data references) with "
        "nearly the same history under failing stores, aborted operations, clock jumps, transport, restarts and renames; every "
        "pair is compared by ==, !=, hash and as dictionary keys, also by several threads at once, against models of the contents.")
REAL = ["pymt.mpt", "pymt.empt", "pymt.mt", "pymt.merkletools", "pymt.proof", "pymt.keypairs", "pymt.utils", "rlp", "Crypto", "hashlib"]
STUB = ["node and data stores (SimStore)", "clock", "thread scheduler", "store failures, interrupts"]
PROBES = ("equal", "unequal", "equal-again", "mpt", "empt", "merkle", "tools", "keys", "proof", "ref", "failed", "aborted-compare",
          "restarted", "transported", "emptied", "threads", "mode-differs", "clock-only", "as-key", "unbuilt", "store-shared", "long-proof")
HT = ["sha256", "sha256", "md5", "sha512", "sha3_256"]
FAMILIES = {"mpt": 3, "empt": 3, "merkle": 3, "tools": 1.5, "keys": 0.7, "proof": 3, "ref": 2}


def plan(rng, i, tier):
    fam = gen.pick(rng, FAMILIES)
    ks = gen.keys(rng, rng.choice([1, 2, 3, 5]))
    vals = gen.values(rng, rng.choice([1, 2, 4]))
    if rng.random() < 0.4:
        v = rng.choice(vals)
        vals.append(rng.choice([b"\0" + v, v + b"\0", v[:-1] + bytes([v[-1] ^ 1]), v + v, v[:1], v.hex().encode()]))
    ns = rng.choice([2, 2, 3, 4])
    w = {"put": 5, "cmp": 5, "copy": 1, "restart": 1, "same": 1.5}
    if fam in ("mpt", "empt", "ref"):
        w["del"] = 2
    if fam in ("merkle", "tools"):
        w["reset"] = 0.4
    if fam == "proof":
        w.update(clock=1, field=1, send=1)
    if fam == "ref":
        w["send"] = w["field"] = 1
    fp = rng.choice([0, 0, 0.15, 0.4])
    steps = []
    for _ in range(rng.choice([4, 8, 14, 24]) if fam != "keys" else rng.choice([3, 6, 10])):
        s = {"o": gen.pick(rng, w), "a": rng.randrange(ns), "b": rng.randrange(ns), "k": rng.randrange(len(ks)),
             "v": rng.randrange(len(vals)), "x": rng.randrange(64)}
        if s["o"] == "put":
            s["as"] = rng.choice(["b", "b", "obj", "ba"])
        elif s["o"] == "clock":
            s["d"] = rng.choice([-86400.0, -1.0, 0.25, 1e-6, 3600.0, 4e7])
        if rng.random() < fp and s["o"] in ("put", "del", "cmp", "same"):
            if fam in ("mpt", "empt") and rng.random() < 0.6:
                s["f"] = [gen.store_fault(rng, rng.choice("td") if fam == "empt" else "t", errs=("store", "os", "mem", "val"), after=False)]
            elif s["o"] == "cmp" or fam in ("merkle", "tools"):
                s["f"] = [gen.line_fault(rng, span=60)]
        steps.append(s)
    p = {"cfg": {"fam": fam, "n": ns, "secure": rng.random() < 0.4, "ht": rng.choice(HT), "odd": rng.random() < 0.1, "big": rng.random() < 0.15},
         "keys": gen.hexes(ks), "vals": gen.hexes(vals), "steps": steps}
    if rng.random() < 0.2:
        p["ends"] = [[[rng.randrange(ns), rng.randrange(ns), rng.randrange(8)] for _ in range(rng.choice([1, 2, 4]))] for _ in range(rng.choice([2, 3]))]
        p["sched"] = {"mode": "seed", "seed": rng.randrange(1 << 40), "lines": fam != "keys" and rng.random() < 0.7}
        if rng.random() < 0.5:
            p["sched"].update(points=rng.choice([1, 2, 4, 8]), span=rng.choice([30, 100, 400]))
        else:
            p["sched"]["p"] = rng.choice([0.05, 0.3])
    return gen.times(rng, p)


class Slot:
    """An object with a model of its contents; subclasses say how it is made, changed and renewed."""

    hashable = True

    def __init__(self, sim, cfg, n):
        self.sim, self.cfg, self.n = sim, cfg, n
        self.secure = cfg["secure"] != (cfg["odd"] and n == 1)
        self.ht = cfg["ht"] if not (cfg["odd"] and n == 1) else "sha3_384"
        self.fresh()
        self.new()

    def fresh(self):
        self.t, self.d = SimStore(self.sim, "t"), SimStore(self.sim, "d")
        self.stores = {"t": self.t, "d": self.d}

    def reset(self, s):
        self.new()

    def comparable(self, other):
        return True

    def built(self):
        return True

    def fault(self, s, fn, *a):
        """Whether the operation took effect."""
        with Faults(self.sim, self.stores, s.get("f")):
            out = self.sim.call(fn, *a)
        if out.ok:
            return True
        if not s.get("f"):
            self.sim.fail("operation", "%s on slot %d %r" % (s["o"], self.n, out))
        self.sim.probe("failed")
        return False


class Mpt(Slot):
    def new(self):
        self.moved = False
        self.o, self.m = self.sim.P.MPT(self.t, secure=self.secure), {}

    def put(self, s, k, v):
        if self.fault(s, self.o.update, k, v):
            self.m[k] = v

    def delete(self, s, k):
        if k in self.m and self.fault(s, self.o.delete, k):
            del self.m[k]
            if not self.m:
                self.sim.probe("emptied")

    def same(self, s, other):
        for k in sorted(set(self.m) - set(other.m)):
            self.delete(s, k)
        for k in sorted(other.m):
            if self.m.get(k) != other.m[k]:
                self.put(s, k, other.m[k])

    def restart(self, s):
        if s["x"] % 2 and not self.moved:
            self.o = self.sim.P.MPT(self.t, root=self.o.root() or self.o.root_hash(), secure=self.secure)
        else:
            self.o = self.sim.P.MPT.decode(self.o.encode())
            self.moved = True  # lives in a store of its own from now on

    def share(self, other):
        """A second handle on the store of another, opened at its root as it was read back from somewhere."""
        self.t, self.stores, self.m, self.moved = other.t, other.stores, dict(other.m), False
        root = other.o.root() or other.o.root_hash()
        self.o = self.sim.P.MPT(self.t, root=bytes(bytearray(root)), secure=self.secure)

    def content(self):
        return (ref.root_hash(self.m, self.secure),)


class Empt(Mpt):
    hashable = False

    def new(self):
        self.o, self.m = self.sim.P.EMPT(self.t, self.d, secure=self.secure), {}

    def put(self, s, k, v):
        v = mkval(v, s.get("as", "b")) if isinstance(v, bytes) else v
        if self.fault(s, self.o.update, k, v):
            self.m[k] = v

    def restart(self, s):
        self.o = self.sim.P.EMPT(self.t, self.d, root=self.o.root() or self.o.root_hash(), secure=self.secure)

    def content(self):
        return self.m


class Merkle(Slot):
    cls = "MerkleTree"

    def new(self):
        self.o, self.m = getattr(self.sim.P, self.cls)(hash_type=self.ht, secure=self.secure), []

    def add(self, v):
        (self.o.put if self.cls == "MerkleTree" else self.o.add_leaf)(v)

    def put(self, s, k, v):
        n = len(self.o)
        self.fault(s, self.add, v)
        if len(self.o) > n:
            self.m.append(v)

    def same(self, s, other):
        if self.m != other.m[:len(self.m)]:
            self.o.reset_tree()
            self.m = []
        for v in list(other.m[len(self.m):]):
            self.put(s, None, v)

    def restart(self, s):
        if s["x"] % 2 or not self.m:
            m = self.m
            self.new()
            for v in m:
                self.add(v)
            self.m = m
        else:
            self.o.make_tree()

    def reset(self, s):
        self.o.reset_tree()
        self.m = []

    def built(self):
        return self.o.get_tree_ready_state()

    def comparable(self, other):
        return bool(self.m and other.m)  # an empty tree has no root

    def content(self):
        return ref.mt_root(self.m, self.ht, self.secure)


class Tools(Merkle):
    cls = "MerkleTools"


class Keys(Slot):
    def new(self):
        self.i, self.name = self.n % 2, "party"
        self.cls = ["RsaKeyPair", "RsaAuthKeyPair", "RsaEncKeyPair"][(self.cfg["secure"] + 2 * self.cfg["odd"]) % 3]
        self.o = keyworld.party(self.sim.P, self.i, self.cls, self.name)

    def put(self, s, k, v):
        if s["x"] % 2:
            self.name = ["party", "other", "Party", "party ", "", "p\u00e4rty"][s["v"] % 6]
            self.o.nickname = self.name
        else:
            self.i = s["x"] // 2 % 3
            self.o = keyworld.party(self.sim.P, self.i, self.cls, self.name)

    def same(self, s, other):
        self.i, self.name = other.i, other.name
        self.o = keyworld.party(self.sim.P, self.i, self.cls, self.name)

    def restart(self, s):
        self.o = type(self.o).from_key_string(self.o.to_key_string("pass"), "pass")

    def content(self):
        return (self.i, self.name)


class Record(Slot):
    """A proof record; its source is a trie or a Merkle tree."""

    def new(self):
        if not hasattr(self, "src"):
            P = self.sim.P
            self.merkle = self.cfg["secure"]
            self.src = P.MerkleTree(secure=True, hash_type=self.cfg["ht"]) if self.merkle else P.MPT({}, secure=False)
            big = self.cfg.get("big")
            for j in range(40 if big else 3):
                if self.merkle:
                    self.src.put(b"leaf%d" % j)
                else:
                    self.src.update(b"leaf%d" % j, bytes([j]) * 700 if big else b"v")
            if self.merkle:
                self.src.make_tree()
        self.make(b"leaf0")

    def make(self, k):
        self.o = self.src.get_proof_of_inclusion(k) if self.merkle or self.src.contains(k) else self.src.get_proof_of_exclusion(k)

    def put(self, s, k, v):
        if s["x"] % 3 == 0:
            if self.merkle:
                self.src.put(v)
                self.src.make_tree()
            else:
                self.src.update(k, v)
        self.make(b"leaf%d" % (s["x"] % 3) if self.merkle or s["x"] % 4 else k)

    def same(self, s, other):
        self.make(other.o.target_key if not self.merkle else b"leaf%d" % (s["x"] % 3))

    def restart(self, s):
        pass

    def send(self, s):
        if self.o.type == b"MT-POI" and self.merkle:
            self.o = self.sim.P.Proof.decode_rlp(self.o.encode_rlp())
            self.sim.probe("transported")

    def field(self, s, k):
        """The same record made anew, or with one field changed."""
        p = self.o
        f = [p.target_key, p.trie_root, p.proof, p.type]
        j = s["x"] % 8
        if len(f[2]) and j == 5:
            f[2] = f[2][:-1] + (f[2][-1][:-1] + b"\x07" if isinstance(f[2][-1], bytes) else f[2][0],)
        if self.cfg.get("big") and j == 6:
            f[2] = f[2] * 20
        if len(str(f[2])) > 4000:
            self.sim.probe("long-proof")
        if j == 0:
            f[0] = f[0] + b"x"
        elif j == 1:
            f[1] = f[1][:-1] + bytes([f[1][-1] ^ 1])
        elif j == 2 and f[2]:
            f[2] = f[2][:-1]
        elif j == 3:
            f[3] = {b"MPT-POI": b"MPT-POE", b"MPT-POE": b"MPT-POI"}.get(f[3], f[3])
        elif j == 4 and len(f[2]) > 1:
            f[2] = f[2][1:] + f[2][:1]
        now = CLOCK.now
        self.o = self.sim.P.Proof(f[0], f[1], f[2], f[3])
        if CLOCK.now == now:
            self.sim.probe("clock-only")

    def content(self):
        p = self.o
        return (p.type, p.timestamp, p.target_key, p.trie_root, tuple(p.proof))


class Reference(Slot):
    def new(self):
        if not hasattr(self, "e"):
            P = self.sim.P
            self.e = P.EMPT({}, {}, secure=self.secure) if self.n % 2 else P.SparseEMPT({}, secure=self.secure)
            self.m = {}
            self.e.update(b"first", b"v")
            self.m[b"first"] = b"v"
        self.take(b"first")

    def take(self, k):
        self.o, self.c = self.e.get_reference(k), (k, self.m[k])

    def put(self, s, k, v):
        if s["x"] % 3:
            self.e.update(k, v)
            self.m[k] = v
        if k in self.m:
            self.take(k)

    def delete(self, s, k):
        if k in self.m and k != b"first":
            self.e.delete(k)
            del self.m[k]

    def same(self, s, other):
        k = other.c[0]
        if k in other.m:
            self.e.update(k, other.m[k])
            self.m[k] = other.m[k]
            self.take(k)

    def restart(self, s):
        self.take(sorted(self.m)[s["x"] % len(self.m)])

    def send(self, s):
        self.o = type(self.o).decode(self.o.encode())
        self.sim.probe("transported")

    def field(self, s, k):
        """A reference like the present one made by the application, perhaps a little different."""
        a, b = self.c
        j = s["x"] % 5
        if j == 1:
            a, b = a + b[:1], b[1:]
        elif j == 2 and len(a) > 1:
            a, b = a[:-1], a[-1:] + b
        elif j == 3:
            b = b[:-1]
        elif j == 4:
            a = k
        self.o, self.c = type(self.o)(a, b), (a, b)

    def content(self):
        return self.c


CLASSES = {"mpt": Mpt, "empt": Empt, "merkle": Merkle, "tools": Tools, "keys": Keys, "proof": Record, "ref": Reference}


def run(sim, plan):
    keys, vals = sim_keys(plan)
    cfg = plan["cfg"]
    fam = cfg["fam"]
    slots = [CLASSES[fam](sim, cfg, n) for n in range(cfg["n"])]
    seen = {}
    sim.probe(fam)

    def expect(a, b):
        return a.content() == b.content()

    def compare(a, b, x, f=None):
        if not a.comparable(b):
            return
        want = expect(a, b)
        A, B = a.o, b.o
        if a.secure != b.secure and fam in ("mpt", "merkle", "tools"):
            sim.probe("mode-differs")
        for j in range(3):
            w = (x + j) % 3
            what = ("==", "!=", "as dictionary keys" if a.hashable else "== (turned)")[w]
            fn = (lambda: A == B, lambda: A != B, (lambda: {A: 1}.get(B) == 1) if a.hashable else (lambda: B == A))[w]
            f0 = sim.fired()
            with Faults(sim, a.stores, f if j == 0 else None):
                out = sim.call(fn)
            fired = sim.fired() > f0
            sim.log("cmp", str(a.n), str(b.n), what, out.ok, out.err or out.value)
            if not out.ok:
                unbuilt = not (a.built() and b.built())
                if unbuilt:
                    # a tree that was not made since its last leaf may refuse, but not answer wrongly
                    sim.probe("unbuilt")
                    for t in (a, b):
                        if not t.built():
                            t.o.make_tree()
                elif not fired:
                    sim.fail("compare-raises", "comparing two of kind %s (%s) %r" % (fam, what, out))
                if fired:
                    sim.probe("aborted-compare")
                # an undisturbed repetition answers
                out = sim.call(fn)
                if not out.ok:
                    sim.fail("compare-raises", "comparing again after an interrupted comparison (%s) %r" % (what, out))
            if bool(out.value) != (want != (w == 1)):
                sim.fail("compare-wrong", "two of kind %s with %s contents (slots %d and %d): %s gives %r" % (
                    fam, "equal" if want else "different", a.n, b.n, what, out.value))
        if a.hashable and want:
            out = sim.call(lambda: (hash(A), hash(B)))
            if not out.ok or out.value[0] != out.value[1]:
                sim.fail("hash-differs", "two of kind %s with equal contents have the hash values %r" % (fam, out))
            sim.probe("as-key")
        if fam == "empt":
            if (A == dict(b.m)) is not want:
                sim.fail("compare-wrong", "a full store and a dictionary with %s contents compare %s" % (
                    "equal" if want else "different", "unequal" if want else "equal"))
        for foreign in (None, "x", b"x"):
            out = sim.call(lambda: A == foreign)
            if out.ok and out.value is not False:
                sim.fail("foreign-equal", "one of kind %s equals %r" % (fam, foreign))
        if a is not b:
            pair = (a.n, b.n) if a.n < b.n else (b.n, a.n)
            sim.probe("equal" if want else "unequal")
            if want and seen.get(pair) is False:
                sim.probe("equal-again")
            seen[pair] = want

    for s in plan["steps"]:
        o = s["o"]
        sim.ops[o] += 1
        a, b = slots[s["a"]], slots[s["b"]]
        k, v = keys[s["k"]], vals[s["v"]]
        if o == "put":
            a.put(s, k, v)
        elif o == "del":
            a.delete(s, k)
        elif o == "reset":
            a.reset(s)
        elif o == "same":
            if a is not b:
                a.same(s, b)
        elif o == "copy":
            if a is not b:
                if fam == "mpt" and s["x"] % 2 and not b.moved and a.secure == b.secure:
                    a.share(b)
                    sim.probe("store-shared")
                else:
                    a.fresh()
                    a.new()
                    a.same({"o": o, "x": s["x"]}, b)
        elif o == "restart":
            a.restart(s)
            sim.probe("restarted")
        elif o == "clock":
            CLOCK.set(max(0.0, CLOCK.now + s["d"]))
            sim.fault("clock-jump")
        elif o == "send":
            a.send(s)
        elif o == "field":
            a.field(s, k)
        elif o == "cmp":
            compare(a, b, s["x"], s.get("f"))
        sim.log(o, str(s["a"]))
    for a in slots:
        if fam in ("merkle", "tools") and a.m and not a.built():
            a.o.make_tree()
    for a in slots:
        for b in slots:
            compare(a, b, a.n + b.n)
    if plan.get("ends"):
        wants = {(a.n, b.n): expect(a, b) if a.comparable(b) else None for a in slots for b in slots}

        def task(me, pairs):
            def body():
                for i, j, x in pairs:
                    if wants[i, j] is None:
                        continue
                    A, B = slots[i].o, slots[j].o
                    out = sim.call(lambda: (A == B) if x % 2 else not A != B)
                    if not out.ok or bool(out.value) != wants[i, j]:
                        sim.fail("compare-wrong", "thread %d: two of kind %s with %s contents: %r" % (
                            me, fam, "equal" if wants[i, j] else "different", out))
                    if slots[i].hashable and wants[i, j]:
                        out = sim.call(lambda: hash(A) == hash(B))
                        if not out.ok or out.value is not True:
                            sim.fail("hash-differs", "thread %d: two of kind %s with equal contents: equal hash values %r" % (me, fam, out))

            return body

        sim.run_tasks([task(i, ps) for i, ps in enumerate(plan["ends"])])
        sim.probe("threads")
