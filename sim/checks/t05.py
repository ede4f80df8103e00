"""T05: reading, proving and verifying never change anything, alone or concurrently."""
from .. import gen, ref
from ..kernel import short
from ..storage import Faults, SimStore
from ..world import audit, check_store, encmap, mkval, sim_keys

RUNS = {"quick": 6000, "thorough": 60000}
RULE = ("Threads read, test membership, prove, verify, serialize and iterate proofs on one shared trie (trie, full store, sparse "
        "form) and shared proof objects, preempted at store accesses and executed lines, with failing reads and aborts; every "
        "answer equals the one obtained alone, no write or deletion reaches a store, nothing changes afterwards.")
REAL = ["pymt.mpt", "pymt.empt", "pymt.proof", "pymt.mt (verification)", "pymt.utils", "rlp", "Crypto"]
STUB = ["node and data stores (SimStore)", "thread scheduler", "read failures, interrupts"]
ASSUME = ["single operations of the stores are atomic"]
PROBES = ("proof", "verify", "verify-fails", "iterate", "encode", "read-failed", "aborted", "shared-proof", "merkle", "lines")
FORMS = ["mpt", "mpt", "empt", "empt", "sparse"]


def plan(rng, i, tier):
    lines = rng.random() < 0.6
    nk = rng.choice([1, 2, 4, 8])
    ks = gen.keys(rng, nk)
    ks += gen.near(rng, ks, 3)
    vals = gen.values(rng, 8)
    base = [{"o": "set" if rng.random() < 0.85 else "del", "k": rng.randrange(len(ks)), "v": rng.randrange(len(vals)),
             "as": rng.choice(["b", "b", "obj", "ba"])} for _ in range(rng.choice([1, 2, 5, 9]))]
    nt = rng.choice([1, 2, 2, 3, 4])
    fp = rng.choice([0, 0, 0.15, 0.4])
    tasks = []
    for _ in range(nt):
        steps = []
        for _ in range(rng.choice([2, 4, 6]) if lines else rng.choice([4, 8, 14])):
            o = gen.pick(rng, {"get": 3, "has": 1.5, "prove": 3, "verify": 4, "iter": 3, "encode": 1, "eq": 1, "len": 0.5,
                               "ref": 0.7, "iterstore": 0.5, "partial": 1.2, "derive": 0.5, "mtverify": 1, "code": 1})
            s = {"o": o, "k": rng.randrange(len(ks)), "p": rng.randrange(64)}
            if fp and rng.random() < fp:
                if rng.random() < 0.6 or (nt > 1 and lines):
                    s["f"] = [gen.store_fault(rng, rng.choice("td"), write=False)]
                elif not lines:
                    s["f"] = [gen.line_fault(rng, span=80)]
            steps.append(s)
        tasks.append(steps)
    if nt == 1:
        lines = False
    sched = {"mode": "seed", "seed": rng.randrange(1 << 40), "lines": lines}
    if rng.random() < 0.4:
        sched["points"], sched["span"] = rng.choice([1, 2, 4, 8, 16]), rng.choice([60, 300, 1500])
    else:
        sched["p"] = rng.choice([0.01, 0.05, 0.3]) if lines else rng.choice([0.05, 0.3, 0.6])
    return gen.times(rng, {"cfg": {"secure": rng.random() < 0.3, "form": rng.choice(FORMS)}, "keys": gen.hexes(ks),
                           "vals": gen.hexes(vals), "base": base, "tasks": tasks, "sched": sched})


class Router(SimStore):
    """The one store object all threads share; a thread's armed faults apply to its own calls only."""

    def __init__(self, sim, name):
        super().__init__(sim, name)
        self.by_task = {}

    def _armed(self):
        s = self.sim.sched
        return self.by_task.get(s.cur if s is not None else None)

    def arm(self, f):
        self.by_task[self.sim.sched.cur if self.sim.sched else None] = dict(f) if f else None

    def disarm(self):
        self.by_task.pop(self.sim.sched.cur if self.sim.sched else None, None)

    def _hit(self, op, when):
        self.armed = self._armed()
        try:
            super()._hit(op, when)
        finally:
            self.armed = None

    def _done(self, op):
        self._hit(op, "after")
        self.sim.yield_point("s")


def run(sim, plan):
    keys, vals = sim_keys(plan)
    secure, form = plan["cfg"]["secure"], plan["cfg"]["form"]
    P = sim.P
    t, d = Router(sim, "t"), Router(sim, "d")
    stores = {"t": t, "d": d}
    e = P.MPT(t, secure=secure) if form == "mpt" else P.EMPT(t, d, secure=secure) if form == "empt" else P.SparseEMPT(t, secure=secure)
    model = {}
    proofs = []  # shared proof objects with what verifying them answers

    def snapshot_proofs():
        for k in keys:
            for fn in (e.get_proof_of_inclusion, e.get_proof_of_exclusion):
                out = sim.call(fn, k)
                if out.ok and len(proofs) < 14:
                    proofs.append(out.value)

    for n, s in enumerate(plan["base"]):
        k = keys[s["k"]]
        v = mkval(vals[s["v"]], s["as"] if form != "mpt" else "b")
        if s["o"] == "set":
            e[k] = v
            model[k] = v
        elif k in model:
            del e[k]
            del model[k]
        if n == len(plan["base"]) // 2:
            snapshot_proofs()  # these may be outdated later
    snapshot_proofs()
    mt = P.MerkleTree(secure=secure)
    mt.put_list([b"leaf%d" % j for j in range(1 + len(keys))])
    mt.make_tree()
    mproofs = [mt.get_proof_of_inclusion(b"leaf%d" % j) for j in range(1 + len(keys))]
    other = P.MerkleTree(secure=secure)
    other.put_list([b"x", b"y", b"z"])
    other.make_tree()
    mproofs.append(other.get_proof_of_inclusion(b"y"))

    def do(s, who=None):
        """The observable answer of one read-only operation."""
        o, k = s["o"], keys[s["k"]]
        p = (proofs or mproofs)[s["p"] % len(proofs or mproofs)]
        if o == "get":
            return norm(e.get_reference(k).encode() if form == "sparse" else e.get(k) if s["p"] % 2 else e[k])
        if o == "has":
            return bool(k in e if s["p"] % 2 else e.contains(k))
        if o == "prove":
            present = k in model
            fn = e.get_proof_of_inclusion if (present) != (s["p"] % 5 == 0) else e.get_proof_of_exclusion
            r = fn(k)
            return (r.type, r.target_key, r.trie_root, tuple(r.proof))
        if o == "verify":
            fn = e.verify_proof_of_inclusion if (p.type == b"MPT-POI") != (s["p"] % 7 == 6) else e.verify_proof_of_exclusion
            return fn(p)
        if o == "mtverify":
            return mt.verify_proof_of_inclusion(mproofs[s["p"] % len(mproofs)])
        if o == "iter":
            allp = proofs + mproofs
            return [(a, norm(b)) for a, b in allp[s["p"] % len(allp)]]
        if o == "partial":
            # two iterations over one proof, interleaved
            a, b = iter(p), iter(p)
            out = [next(a), next(b), next(a)]
            out += list(b)
            return out
        if o == "encode":
            if form == "mpt":
                return digest_of(P, e.encode(), secure)
            if form == "sparse":
                return digest_of(P, e.encode_rlp(), secure)
            return mproofs[s["p"] % len(mproofs)].encode_rlp()
        if o == "eq":
            a = (proofs or mproofs)[0]
            return (p == a, hash(p) == hash(a), str(p.timestamp), repr(p), sorted(dict(p.items())))
        if o == "len":
            return len(e) if form == "empt" else e.root_hash()
        if o == "ref":
            if form == "mpt":
                return e.root()
            r = e.get_reference(k)
            return (r.key, r.data, r.encode())
        if o == "iterstore":
            return sorted(bytes(x) for x in e) if form == "empt" else e.root_hash()
        if o == "code":
            q = mproofs[s["p"] % len(mproofs)]
            q = P.Proof.decode_json(q.encode_json()) if s["p"] % 3 else P.Proof.decode_rlp(q.encode_rlp())
            return (q.type, q.timestamp, q.target_key, q.trie_root, tuple(q.proof))
        if o == "derive":
            if form == "empt":
                return (e.get_sparse_trie().root_hash(), e.get_root_trie().root_hash())
            return (hash(e) if form == "mpt" else 0, e.root_hash())
        raise AssertionError(o)

    def want_of(s):
        out = sim.call(do, s)
        return (True, out.value) if out.ok else (False, out.err)

    # what every operation answers alone
    alone = {}
    before = state(sim, e, t, d, proofs + mproofs)
    counts = (t.writes, t.dels, d.writes, d.dels)
    for ti, steps in enumerate(plan["tasks"]):
        for n, s in enumerate(steps):
            alone[ti, n] = want_of(s)
            if s["o"] in ("has", "iter", "partial", "eq", "len", "iterstore", "code", "derive") and not alone[ti, n][0]:
                sim.fail("alone", "%s alone raises %s" % (s["o"], alone[ti, n][1]))
    unchanged(sim, before, counts, e, t, d, proofs + mproofs, "alone")

    def task(me, steps):
        def body():
            for n, s in enumerate(steps):
                o = s["o"]
                sim.ops[o] += 1
                line = any(f.get("s") == "line" for f in s.get("f", ()))
                f0 = sim.fired()
                with Faults(sim, stores, s.get("f")):
                    out = sim.call(do, s)
                ok, want = alone[me, n]
                sim.log(o, str(me), out.ok, out.err or "")
                mine = s.get("f") and sim.fired() > f0
                if out.ok:
                    if not ok:
                        if not mine:
                            sim.fail("differs", "task %d: %s of key %s returned %s, alone it raises %s" % (
                                me, o, short(keys[s["k"]]), short(out.value), want))
                    elif out.value != want:
                        sim.fail("differs", "task %d: %s (key %s) answered %s, alone %s%s" % (
                            me, o, short(keys[s["k"]]), short(out.value), short(want), " (reads failed)" if mine else ""))
                elif ok and not mine:
                    sim.fail("differs", "task %d: %s of key %s %r, alone it answers %s" % (
                        me, o, short(keys[s["k"]]), out, short(want)))
                if mine:
                    sim.probe("aborted" if line else "read-failed")
                if o in ("verify", "mtverify"):
                    sim.probe("verify" if out.ok and out.value else "verify-fails")
                    if o == "mtverify":
                        sim.probe("merkle")
                elif o in ("prove",):
                    sim.probe("proof")
                elif o in ("iter", "partial"):
                    sim.probe("iterate")
                elif o == "encode":
                    sim.probe("encode")
            if len(plan["tasks"]) > 1 and proofs:
                sim.probe("shared-proof")

        return body

    if plan["sched"].get("lines"):
        sim.probe("lines")
    sim.run_tasks([task(i, s) for i, s in enumerate(plan["tasks"])])
    unchanged(sim, before, counts, e, t, d, proofs + mproofs, "concurrent")
    # and every later answer is the same
    for ti, steps in enumerate(plan["tasks"]):
        for n, s in enumerate(steps):
            if want_of(s) != alone[ti, n]:
                sim.fail("later-answer", "%s of key %s answers %s afterwards, before %s" % (
                    s["o"], short(keys[s["k"]]), short(want_of(s)), short(alone[ti, n])))
    if form == "mpt":
        audit(sim, e, model, keys, secure, "final")
    elif form == "empt":
        check_store(sim, e, model, keys, secure, "final")
    elif e.root_hash() != ref.empt_root(encmap(model), secure):
        sim.fail("final-root", "the sparse form's root hash is not that of its contents")
    # nor is the connection to the stores lost: changes made now arrive there
    for j in (0, len(keys) - 1):
        v = b"changed %d" % j * (1 + 3 * j)
        e[keys[j]] = v
        model[keys[j]] = v
    if len(keys) > 2 and keys[1] in model:
        del e[keys[1]]
        del model[keys[1]]
    twin = P.MPT(t, root=e.root() or e.root_hash(), secure=secure)
    audit(sim, twin, model if form == "mpt" else {k: ref.data_ref(k, v) for k, v in encmap(model).items()}, keys, secure, "afterwards")


def digest_of(P, raw, secure):
    """Serialized bytes may list nodes in any order; what counts is the trie they restore."""
    r = P.MPT.decode(raw)
    return (r.root_hash(), r.secure, len(raw))


def norm(v):
    return bytes(v) if isinstance(v, bytearray) else v


def state(sim, e, t, d, proofs):
    return (e.root_hash(), e.root(), dict(t.mem), {k: repr(v) for k, v in d.mem.items()},
            [(p.type, p.timestamp, p.target_key, p.trie_root, p.proof) for p in proofs])


def unchanged(sim, before, counts, e, t, d, proofs, tag):
    if (t.writes, t.dels, d.writes, d.dels) != counts:
        sim.fail("wrote", "reading, proving or verifying wrote to or deleted from a store (%s)" % tag)
    now = state(sim, e, t, d, proofs)
    for name, a, b in zip(("root hash", "root", "nodes", "data", "proof records"), before, now):
        if a != b:
            sim.fail("changed", "reading, proving or verifying changed the %s (%s)" % (name, tag))
