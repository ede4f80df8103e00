"""E05: objects created independently share no state."""
import json

from .. import gen, keyworld, ref
from ..kernel import short
from ..storage import SimStore
from ..world import check_proofs, check_root, check_store, encmap, keep, read_key, sim_keys

RUNS = {"quick": 3600, "thorough": 40000}
RULE = ("Two to five objects of drawn kinds, created with or without storage arguments at drawn moments, each used by its own "
        "thread on the same keys with different values (or as twins, with the same or almost the same history); preempted between operations, at store accesses and at executed lines; "
        "each must answer as if it were the only one.")
REAL = ["pymt.mpt", "pymt.empt", "pymt.mt", "pymt.merkletools", "pymt.proof", "pymt.keypairs", "pymt.utils", "rlp", "Crypto"]
STUB = ["node and data stores (SimStore or dict)", "thread scheduler", "randomness"]
PROBES = ("default-storage", "same-kind", "created-late", "merkle", "keypair", "sparse-default", "recreated", "line-level", "twins", "exported", "same-bytes", "transported", "restored", "replaced")

KINDS = ["mpt", "empt", "empt", "empt-default", "empt-default", "empt-data-default", "sparse-default", "sparse-default",
         "sparse", "merkle", "merkletools", "decoded", "decoded-filled", "sparse-filled"]


def plan(rng, i, tier):
    lines = rng.random() < 0.4
    ks = gen.keys(rng, rng.choice([1, 2, 3, 5]))
    vals = gen.values(rng, 16)
    nt = rng.choice([2, 2, 3, 4, 5])
    kinds = [rng.choice(KINDS) for _ in range(nt)]
    if rng.random() < 0.5:
        kinds[1] = kinds[0]
    r = rng.random()
    if r < 0.05:
        kinds = ["keypair"] * 2 + kinds[:1]
        lines = False
    elif r < 0.12:
        kinds = ["keypair-loaded"] * rng.choice([2, 2, 3])
    tasks = []
    for n, kind in enumerate(kinds):
        steps = [{"o": "new", "kind": kind, "secure": rng.random() < 0.3, "ht": rng.choice(HT), "k1": n, "k2": rng.randrange(4)}]
        for _ in range(rng.choice([2, 4, 7]) if lines else rng.choice([3, 6, 12])):
            o = gen.pick(rng, {"set": 5, "del": 1.5, "check": 2, "proof": 1.5, "new": 0.3})
            s = {"o": o, "k": rng.randrange(len(ks)), "v": rng.randrange(len(vals)), "as": rng.choice(["b", "b", "b", "obj", "obj+", "ba+"])}
            if o == "new":
                s.update(kind=kind if kind.startswith("keypair") else rng.choice([kind, rng.choice(KINDS)]),
                         secure=rng.random() < 0.3, ht=rng.choice(HT), k1=rng.randrange(8), k2=rng.randrange(4))
            steps.append(s)
        tasks.append(steps)
    shift = 5
    if rng.random() < 0.5:
        # twins: the same history in every thread, or almost the same
        shift = 0
        if rng.random() < 0.4:
            # twin Merkle trees: long enough to differ in the middle only
            new = {"o": "new", "kind": rng.choice(["merkle", "merkle", "merkletools"]), "secure": rng.random() < 0.3, "ht": rng.choice(HT)}
            tasks[0] = [new] + [{"o": gen.pick(rng, {"set": 5, "check": 1, "proof": 3}), "k": rng.randrange(len(ks)),
                                 "v": rng.randrange(len(vals)), "as": "b"} for _ in range(rng.choice([5, 8, 12]))]
        tasks = [json.loads(json.dumps(tasks[0])) for _ in range(min(nt, 3))]
        for t in tasks[1:]:
            if len(t) > 1 and rng.random() < 0.7:
                s = t[rng.randrange(1, len(t))]
                s["v"] = rng.randrange(len(vals))
                if rng.random() < 0.3:
                    s["k"] = rng.randrange(len(ks))
            elif len(t) > 1 and rng.random() < 0.3:
                t.pop()
    elif rng.random() < 0.12:
        # trees of text leaves whose proofs pass through the codecs at the same time
        shift, lines = 1, True
        tasks = [[{"o": "new", "kind": "merkle", "secure": rng.random() < 0.3, "ht": rng.choice(HT), "k1": 1 + 2 * n}]
                 + [{"o": "set", "k": rng.randrange(len(ks)), "v": rng.randrange(len(vals)), "as": "b"} for _ in range(rng.choice([1, 2, 4]))]
                 + [{"o": "proof", "k": rng.randrange(len(ks)), "v": rng.randrange(len(vals)), "as": "b"} for _ in range(rng.choice([2, 4]))]
                 for n in range(rng.choice([2, 2, 3]))]
    elif rng.random() < 0.2:
        # one object after another with nearly the same history, each where the last one was
        for n, t in enumerate(tasks):
            t = [x for x in t if x["o"] != "new" or x is t[0]][:8]
            t.append({"o": rng.choice(["check", "proof"]), "k": rng.randrange(len(ks)), "v": 0, "as": "b"})
            tasks[n] = []
            for _ in range(rng.choice([2, 3, 4])):
                tasks[n] += json.loads(json.dumps(t))
                j = rng.randrange(len(t))
                t[j]["v"], t[0]["again"] = rng.randrange(len(vals)), True
    sched = {"mode": "seed", "seed": rng.randrange(1 << 40), "lines": lines}
    if rng.random() < 0.4:
        sched["points"], sched["span"] = rng.choice([2, 4, 8]), rng.choice([60, 300, 1500])
    else:
        sched["p"] = rng.choice([0.01, 0.05, 0.3]) if lines else rng.choice([0.1, 0.3, 0.6])
    return gen.times(rng, {"cfg": {"shift": shift}, "keys": gen.hexes(ks), "vals": gen.hexes(vals), "tasks": tasks, "sched": sched})


HT = ["sha256", "sha256", "md5", "sha512", "sha3_256", "sha3_512"]


class Trie:
    """mpt, decoded"""

    def __init__(self, sim, kind, s):
        P = sim.P
        self.sim, self.secure, self.m = sim, s["secure"], {}
        if kind == "mpt":
            self.t = P.MPT(SimStore(sim, "x"), secure=self.secure)
        elif kind == "decoded-filled":
            raw, self.m = sim.filled["mpt", self.secure]
            self.m = dict(self.m)
            self.t = P.MPT.decode(raw)
            sim.probe("same-bytes")
        else:
            self.t = P.MPT.decode(P.MPT({}, secure=self.secure).encode())

    def set(self, k, v, form):
        self.t.update(k, v)
        self.m[k] = v

    def delete(self, k):
        if k in self.m:
            self.t.delete(k)
            del self.m[k]

    def check(self, keys):
        check_root(self.sim, self.t, self.m, self.secure, "alone-root")
        for k in keys:
            read_key(self.sim, self.t, self.m, k, "alone")

    def proof(self, k):
        check_proofs(self.sim, self.t, self.m, k, self.secure, "alone-proof")
        # and through its own serialized form
        out = self.sim.call(lambda: self.sim.P.MPT.decode(self.t.encode()))
        if not out.ok:
            self.sim.fail("alone-restored", "a trie's own serialized form does not restore: %r" % out)
        check_root(self.sim, out.value, self.m, self.secure, "alone-restored")
        read_key(self.sim, out.value, self.m, k, "alone-restored")
        self.sim.probe("restored")


class Full(Trie):
    def __init__(self, sim, kind, s):
        P = sim.P
        self.sim, self.secure, self.m = sim, s["secure"], {}
        if kind == "empt":
            self.t = P.EMPT(SimStore(sim, "x"), SimStore(sim, "y"), secure=self.secure)
        elif kind == "empt-default":
            sim.probe("default-storage")
            self.t = P.EMPT(secure=self.secure)
        else:
            sim.probe("default-storage")
            self.t = P.EMPT(SimStore(sim, "x"), secure=self.secure)

    def set(self, k, v, form):
        x, v = keep(self.__dict__.setdefault("kept", {}), k, v, form)
        self.t[k] = x
        self.m[k] = v

    def check(self, keys):
        check_store(self.sim, self.t, self.m, keys, self.secure, "alone")

    def proof(self, k):
        stored_proofs(self, k)


def stored_proofs(o, k):
    check_proofs(o.sim, o.t, {x: ref.data_ref(x, v) for x, v in encmap(o.m).items()}, k, o.secure, "alone-proof")


class Sparse(Trie):
    def __init__(self, sim, kind, s):
        P = sim.P
        self.sim, self.secure, self.m = sim, s["secure"], {}
        if kind == "sparse-default":
            sim.probe("sparse-default")
            self.t = P.SparseEMPT(secure=self.secure)
        elif kind == "sparse-filled":
            raw, self.m = sim.filled["empt", self.secure]
            self.m = dict(self.m)
            self.t = P.SparseEMPT.decode_rlp(raw)
            sim.probe("same-bytes")
        else:
            self.t = P.SparseEMPT(SimStore(sim, "x"), secure=self.secure)

    def set(self, k, v, form):
        x, v = keep(self.__dict__.setdefault("kept", {}), k, v, form)
        self.t[k] = x
        self.m[k] = v

    def check(self, keys):
        m = encmap(self.m)
        if self.t.root_hash() != ref.empt_root(m, self.secure):
            self.sim.fail("alone-root", "a sparse store's root hash is not that of its own %d entries" % len(m))
        for k in keys:
            out = self.sim.call(self.t.contains, k)
            if not out.ok or bool(out.value) != (k in m):
                self.sim.fail("alone-membership", "sparse store: membership of key %s %r, present: %r" % (short(k), out, k in m))
            out = self.sim.call(self.t.get_reference, k)
            if out.ok != (k in m) or (out.ok and out.value.data != m[k]):
                self.sim.fail("alone-reference", "sparse store: reference of key %s %r" % (short(k), out))

    def proof(self, k):
        stored_proofs(self, k)


class Merkle:
    def __init__(self, sim, kind, s):
        self.sim, self.kind = sim, kind
        self.ht, self.secure = s["ht"], s["secure"]
        sim.probe("merkle")
        if kind == "merkle":
            self.t = sim.P.MerkleTree(secure=self.secure, hash_type=self.ht)
        else:
            self.t = sim.P.MerkleTools(hash_type=self.ht, secure=self.secure)
        self.leaves, self.asked = [], 0
        self.text = s.get("k1", 0) % 2 == 1

    def set(self, k, v, form):
        leaf = (k + v).hex().encode() if self.text else k + v
        (self.t.put if self.kind == "merkle" else self.t.add_leaf)(leaf)
        self.leaves.append(leaf)

    def delete(self, k):
        if len(self.leaves) > 6:
            self.t.reset_tree()
            self.leaves = []

    def check(self, keys):
        if len(self.t) != len(self.leaves):
            self.sim.fail("alone-leaves", "a Merkle tree has %d leaves, %d were added" % (len(self.t), len(self.leaves)))
        if not self.leaves:
            return
        self.asked += 1
        if self.kind == "merkletools" or self.asked % 4 == 0:
            self.t.make_tree()
        want = ref.mt_root(self.leaves, self.ht, self.secure).hex()
        got = self.t.get_merkle_root()
        got = got.decode() if isinstance(got, bytes) else got
        if got != want:
            self.sim.fail("alone-root", "a Merkle tree's root is %s, that of its own %d leaves is %s" % (
                short(got), len(self.leaves), short(want)))

    def proof(self, k):
        if not self.leaves:
            return
        self.t.make_tree()
        self.asked += 1
        j = (len(self.leaves) // 2 + self.asked // 3 * 5) % len(self.leaves)
        leaf = self.leaves[j]
        p = self.t.get_proof_of_inclusion(leaf)
        if self.kind == "merkle":
            path = [(a, bytes.fromhex(b.decode())) for a, b in p.proof]
            self.transport(p)
        else:
            path = [(a.encode(), bytes.fromhex(b)) for x in p for a, b in x.items()]
        if ref.mt_fold(ref.mt_leaf(leaf, self.ht, self.secure), path, self.ht) != ref.mt_root(self.leaves, self.ht, self.secure):
            self.sim.fail("alone-proof", "a Merkle tree's proof does not lead to the root of its own leaves")


    def transport(self, p):
        """The tree's own proof through the codecs."""
        P = self.sim.P
        for form in ("rlp", "json") if self.text else ("rlp",):
            out = self.sim.call(lambda: P.Proof.decode_rlp(p.encode_rlp()) if form == "rlp" else P.Proof.decode_json(p.encode_json()))
            if not out.ok:
                self.sim.fail("alone-transport", "a tree's own proof through the %s form: %r" % (form, out))
            q = out.value
            if (q.type, q.timestamp, q.target_key, q.trie_root, tuple(q.proof)) != (p.type, p.timestamp, p.target_key, p.trie_root, tuple(p.proof)) or q != p:
                self.sim.fail("alone-transport", "a tree's own proof of %s comes out of its %s form as another one" % (short(p.target_key), form))
            out = self.sim.call(self.t.verify_proof_of_inclusion, q)
            if not out.ok or out.value is not True:
                self.sim.fail("alone-transport", "a tree does not accept its own proof after the %s form: %r" % (form, out))
            self.sim.probe("transported")


class Keys:
    def __init__(self, sim, kind, s):
        self.sim = sim
        sim.probe("keypair")
        self.nick = None if s["k2"] == 3 else "name"  # (others may bear the same name)
        if kind == "keypair":
            self.k = sim.P.RsaKeyPair(self.nick, _generate_keys=False)
            if self.nick is not None and self.k.nickname != self.nick:
                sim.fail("alone-keypair", "a key pair made with nickname %r has nickname %r" % (self.nick, self.k.nickname))
            self.k.generate_keypair(1024)
            self.pub, self.nick = self.k.public_key, self.k.nickname
        else:
            self.k = keyworld.party(sim.P, s["k1"], CLS[s["k2"]], self.nick or "name")
            self.pub, self.nick = keyworld.pub(s["k1"]), self.nick or "name"
        self.msgs, self.saved, self.n = [], [], 0

    def set(self, k, v, form):
        enc = type(self.k).__name__ != "RsaAuthKeyPair"
        sig = type(self.k).__name__ != "RsaEncKeyPair"
        self.msgs.append((v, self.k.encrypt(v, self.pub) if enc else None, self.k.sign(v) if sig else None))

    def delete(self, k):
        self.nick = "n" + k.hex()[:2]
        self.k.nickname = self.nick

    def check(self, keys):
        if self.k.public_key != self.pub or self.k.nickname != self.nick:
            self.sim.fail("alone-keypair", "a key pair's key or nickname changed")
        for v, c, sig in self.msgs[-2:]:
            if c is not None:
                out = self.sim.call(self.k.decrypt, c, self.pub)
                if not out.ok or out.value != v:
                    self.sim.fail("alone-decrypt", "a key pair's own message %r" % out)
            if sig is not None and self.k.signature_valid(v, sig) is not True:
                self.sim.fail("alone-signature", "a key pair's own signature is rejected")
        for text, pw, nick in self.saved[-1:]:
            out = self.sim.call(type(self.k).from_key_string, text, pw)
            if not out.ok:
                self.sim.fail("alone-load", "a key pair's own saved form does not load: %r" % out)
            if out.value.public_key != self.pub or out.value.nickname != nick:
                self.sim.fail("alone-load", "a key pair's saved form loads as another key pair")

    def proof(self, k):
        self.n += 1
        if self.n > 3:
            return
        pw = "pw%d" % (self.n % 2)
        out = self.sim.call(self.k.to_key_string, pw)
        if not out.ok:
            self.sim.fail("alone-save", "a key pair cannot be saved: %r" % out)
        self.saved.append((out.value, pw, self.nick))
        self.sim.probe("exported")


CLS = ["RsaKeyPair", "RsaKeyPair", "RsaAuthKeyPair", "RsaEncKeyPair"]


def make(sim, s):
    kind = s["kind"]
    cls = {"mpt": Trie, "decoded": Trie, "decoded-filled": Trie, "sparse-filled": Sparse, "keypair-loaded": Keys, "merkle": Merkle, "merkletools": Merkle, "keypair": Keys,
           "sparse": Sparse, "sparse-default": Sparse}.get(kind, Full)
    return cls(sim, kind, s)


def run(sim, plan):
    keys, vals = sim_keys(plan)
    if plan["sched"].get("lines"):
        sim.probe("line-level")
    kinds = [t[0]["kind"] for t in plan["tasks"] if t and t[0]["o"] == "new"]
    if len(set(kinds)) < len(kinds):
        sim.probe("same-kind")
    done = []
    if not plan["cfg"]["shift"]:
        sim.probe("twins")
    # bytes that several objects are restored from
    sim.filled = {}
    if any(s.get("kind", "").endswith("-filled") for t in plan["tasks"] for s in t):
        for secure in (False, True):
            m = {k: v for k, v in zip(keys[:3], vals)}
            a, b = sim.P.MPT({}, secure=secure), sim.P.SparseEMPT({}, secure=secure)
            for k, v in m.items():
                a.update(k, v)
                b.update(k, v)
            sim.filled["mpt", secure] = (a.encode(), m)
            sim.filled["empt", secure] = (b.encode_rlp(), m)

    def task(me, steps):
        def body():
            o = None
            for n, s in enumerate(steps):
                sim.ops[s["o"]] += 1
                if s["o"] == "new":
                    if done:
                        sim.probe("created-late")
                    if o is not None:
                        sim.probe("recreated")
                        o.check(keys)
                        if s.get("again"):
                            sim.probe("replaced")
                        else:
                            done.append(o)
                    o = None  # (a replaced object is gone, its address is free)
                    o = make(sim, s)
                    sim.log("new", str(me), s["kind"])
                    o.check(keys)
                    continue
                if o is None:
                    continue
                k = keys[s["k"]]
                if s["o"] == "set":
                    o.set(k, vals[(s["v"] + plan["cfg"]["shift"] * me) % len(vals)], s["as"])
                elif s["o"] == "del":
                    o.delete(k)
                elif s["o"] == "check":
                    o.check(keys)
                else:
                    o.proof(k)
                sim.log(s["o"], str(me), k)
                sim.yield_point("o")
            if o is not None:
                o.check(keys)
                done.append(o)

        return body

    sim.run_tasks([task(i, s) for i, s in enumerate(plan["tasks"])])
    for o in done:
        o.check(keys)
        for k in keys:
            o.proof(k)
