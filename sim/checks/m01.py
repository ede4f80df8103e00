"""M01: a Merkle tree's root and proofs always reflect every leaf added."""
from .. import gen, ref
from ..kernel import short
from ..seams import CLOCK
from ..storage import Faults
from ..world import sim_keys

RUNS = {"quick": 24000, "thorough": 300000}
RULE = ("Histories of adding leaves, building, asking for roots and proofs, resetting and aborted builds on a Merkle tree, and a "
        "second tree fed the same leaves by messages; roots and proofs compared with the Merkle tree computed from scratch; "
        "proofs delivered late, duplicated and reordered, and after the codecs.")
REAL = ["pymt.mt", "pymt.merkletools", "pymt.proof", "hashlib"]
STUB = ["network", "clock", "allocation failures and interrupts during building"]
PROBES = ("added-after-build", "reset", "readded", "proof", "verified-elsewhere", "build-aborted", "root-raises-unbuilt",
          "single-leaf", "odd", "duplicate-leaf", "secure", "tools", "bad-list")
HT = ["sha256", "md5", "sha224", "sha384", "sha512", "sha3_256", "sha3_224", "sha3_384", "sha3_512"]


def plan(rng, i, tier):
    vals = gen.values(rng, rng.choice([1, 3, 8, 20]))
    if rng.random() < 0.3:
        vals += [b"", b"\x00", b"leaf"]
    w = {"put": 6, "putlist": 1, "make": 2.5, "root": 2.5, "proof": 3.5, "reset": 0.5, "count": 0.4, "deliver": 2, "replicate": 1.5}
    if i % 20 == 9:
        w["putlist"] = 4
    steps = []
    n = 0
    for _ in range(rng.choice([4, 10, 20, 40])):
        o = gen.pick(rng, w)
        s = {"o": o}
        if o == "put":
            s["v"] = rng.randrange(len(vals))
        elif o == "putlist":
            s["vs"] = [rng.randrange(len(vals)) for _ in range(rng.choice([0, 1, 2, 5, 17 if i % 20 == 9 else 3]) if i % 100 != 49 else rng.choice([1, 31, 32, 63, 64, 65, 100, 127, 129]))]
            s["tuple"] = rng.random() < 0.5
            if rng.random() < 0.3:
                s["bad"] = [rng.randrange(len(s["vs"]) + 1), rng.randrange(3)]  # a value of a wrong type in the list
        elif o == "proof":
            s["i"] = rng.randrange(1 << 16)
            s["m"] = n
            n += 1
        elif o == "deliver":
            if not n:
                continue
            s["m"] = rng.randrange(max(0, n - 4), n)
            s["dt"] = round(rng.expovariate(1), 2)
        if o in ("make", "root", "proof", "put", "putlist") and rng.random() < 0.12:
            s["f"] = [gen.line_fault(rng, span=60)]
        steps.append(s)
    return gen.times(rng, {"cfg": {"secure": rng.random() < 0.6, "ht": rng.choice(HT), "upper": rng.random() < 0.1,
                                   "cls": rng.choice(["MerkleTree", "MerkleTree", "MerkleTools"])},
                           "vals": gen.hexes(vals), "steps": steps})


def run(sim, plan):
    vals = gen.unhex(plan["vals"])
    cfg = plan["cfg"]
    ht, secure, cls = cfg["ht"], cfg["secure"], cfg["cls"]
    make = lambda: getattr(sim.P, cls)(hash_type=ht.upper() if cfg["upper"] else ht, secure=secure)  # noqa: E731
    tree, twin = make(), make()
    tools = cls == "MerkleTools"
    leaves, tleaves = [], []
    msgs = {}
    built = False
    was_reset = False
    if tools:
        sim.probe("tools")
    if secure:
        sim.probe("secure")

    def put(t, v):
        (t.add_leaf if tools else t.put)(v)

    def want_root(ls):
        return ref.mt_root(ls, ht, secure).hex()

    def verify(t, ls, m, who):
        leaf, proof, made = m
        if tools:
            out = sim.call(t.verify_proof_of_inclusion, proof, ref.mt_leaf(leaf, ht, secure), ref.mt_root(made, ht, secure))
        else:
            out = sim.call(t.verify_proof_of_inclusion, proof)
        sim.log("verify", who, leaf, out.ok, out.err or out.value)
        if ls == made or tools:
            if not out.ok or out.value is not True:
                sim.fail("honest-rejected", "a tree (%s, %s, secure %s) with the same %d leaves does not accept the proof of leaf %s: %r" % (
                    who, ht, secure, len(ls), short(leaf), out))
            sim.probe("verified-elsewhere" if who != "prover" else "verified")
        elif out.ok and out.value and want_root(made) != want_root(ls):
            sim.fail("stale-accepted", "a tree (%s) with other leaves accepts the proof of leaf %s" % (who, short(leaf)))

    for s in plan["steps"]:
        o = s["o"]
        sim.ops[o] += 1
        if s.get("dt"):
            CLOCK.advance(s["dt"])
        if o == "put":
            v = vals[s["v"]]
            with Faults(sim, {}, s.get("f")):
                out = sim.call(put, tree, v)
            if out.ok:
                if v in leaves:
                    sim.probe("duplicate-leaf")
                leaves.append(v)
                if built:
                    sim.probe("added-after-build")
                if was_reset:
                    sim.probe("readded")
            elif not out.fired:
                sim.fail("put-failed", "adding leaf %s %r" % (short(v), out))
            else:
                n = len(tree)
                if n == len(leaves) + 1:
                    leaves.append(v)
                elif n != len(leaves):
                    sim.fail("count", "after a failed addition the tree has %d leaves, had %d" % (n, len(leaves)))
            sim.log("put", v, str(len(leaves)))
        elif o == "putlist":
            vs = [vals[x] for x in s["vs"]]
            bad = None
            args = list(vs)
            if s.get("bad"):
                bad = s["bad"][0]
                args.insert(bad, ["text", None, 1.5][s["bad"][1]])
                sim.probe("bad-list")
                sim.fault("invalid-value")

            def add():
                if tools:
                    for v in args:
                        tree.add_leaf(v)
                else:
                    tree.put_list(tuple(args) if s["tuple"] else args)

            with Faults(sim, {}, s.get("f")):
                out = sim.call(add)
            sim.log("putlist", str(len(vs)), out.ok, out.err or "")
            n = len(tree) - len(leaves)
            if out.ok and not out.fired and bad is not None:
                sim.fail("bad-accepted", "a list with an invalid value was accepted")
            if not out.ok and not out.fired and bad is None:
                sim.fail("put-failed", "adding a list of %d leaves %r" % (len(vs), out))
            if not 0 <= n <= (len(vs) if bad is None else bad) or out.ok and not out.fired and n != len(vs):
                sim.fail("count", "adding a list of %d leaves (%s) left %d more in the tree" % (
                    len(vs), "complete" if out.ok else "failed", n))
            leaves += vs[:n]
            if built and n:
                sim.probe("added-after-build")
            if not out.ok and built:
                check_now(sim, tree, leaves, want_root, tools, ht, secure)
        elif o == "make":
            with Faults(sim, {}, s.get("f")):
                out = sim.call(tree.make_tree)
            sim.log("make", out.ok, out.err or "")
            if out.ok:
                built = True
                if leaves and not tree.get_tree_ready_state():
                    sim.fail("not-ready", "a tree of %d leaves was built and says that it is not ready" % len(leaves))
            else:
                if not out.fired:
                    sim.fail("make-failed", "building a tree of %d leaves %r" % (len(leaves), out))
                sim.probe("build-aborted")
                check_now(sim, tree, leaves, want_root, tools, ht, secure)
        elif o == "root":
            with Faults(sim, {}, s.get("f")):
                out = sim.call(tree.get_merkle_root)
            sim.log("root", out.ok, out.err or out.value)
            judge_root(sim, out, leaves, want_root)
            if not out.ok:
                sim.probe("root-raises-unbuilt")
                if out.fired:
                    check_now(sim, tree, leaves, want_root, tools, ht, secure)
        elif o == "proof":
            if not leaves:
                continue
            leaf = leaves[s["i"] % len(leaves)]
            with Faults(sim, {}, s.get("f")):
                out = sim.call(tree.get_proof_of_inclusion, leaf)
            sim.log("proof", leaf, out.ok, out.err or "")
            if not out.ok or out.fired:
                continue  # an interrupt may be swallowed on the way; such an answer is not judged
            judge_proof(sim, out.value, leaf, leaves, want_root, tools, ht, secure)
            if len(leaves) == 1:
                sim.probe("single-leaf")
            if len(leaves) % 2:
                sim.probe("odd")
            msgs[s["m"]] = (leaf, out.value, list(leaves))
            sim.probe("proof")
            verify(tree, leaves, msgs[s["m"]], "prover")
        elif o == "reset":
            tree.reset_tree()
            leaves = []
            built = False
            was_reset = True
            sim.probe("reset")
        elif o == "count":
            got = [len(tree), tree.get_leaf_count()] + ([] if tools else [tree.get_count()])
            if any(g != len(leaves) for g in got):
                sim.fail("count", "the tree reports %r leaves, %d were added" % (got, len(leaves)))
            for j in range(len(leaves)):
                g = tree.get_leaf(j) if tools else tree.get(j)
                if g != ref.mt_leaf(leaves[j], ht, secure).hex():
                    sim.fail("leaf", "leaf %d reads %s" % (j, short(g)))
        elif o == "replicate":
            # the twin receives the leaves added since (all of them after a reset)
            if tleaves != leaves[: len(tleaves)]:
                twin.reset_tree()
                tleaves = []
            for v in leaves[len(tleaves):]:
                put(twin, v)
            tleaves = list(leaves)
            if tools and tleaves:
                twin.make_tree()
        elif o == "deliver":
            if s["m"] in msgs:
                sim.sig.update(b"d%d;" % s["m"])
                m = msgs[s["m"]]
                if tleaves:
                    verify(twin, tleaves, m, "twin")
                if leaves:
                    verify(tree, leaves, m, "prover-later")
                sim.fault("net-delayed" if m[2] != leaves else "net-delivery")
    check_now(sim, tree, leaves, want_root, tools, ht, secure)
    if leaves:
        out = sim.call(tree.make_tree)
        if not out.ok:
            sim.fail("make-failed", "building a tree of %d leaves %r" % (len(leaves), out))
        out = sim.call(tree.get_merkle_root)
        if not out.ok:
            sim.fail("root-failed", "the root of a built tree of %d leaves %r" % (len(leaves), out))
        judge_root(sim, out, leaves, want_root)
        for leaf in leaves[:40]:
            out = sim.call(tree.get_proof_of_inclusion, leaf)
            if not out.ok:
                sim.fail("proof-failed", "no proof for leaf %s of a built tree of %d leaves: %r" % (short(leaf), len(leaves), out))
            judge_proof(sim, out.value, leaf, leaves, want_root, tools, ht, secure)
            verify(tree, leaves, (leaf, out.value, list(leaves)), "prover")


def judge_root(sim, out, leaves, want_root):
    if not out.ok:
        return
    got = out.value.decode() if isinstance(out.value, bytes) else out.value
    if not leaves:
        sim.fail("root-of-nothing", "a tree without leaves gave root %s" % short(got))
    if got != want_root(leaves):
        sim.fail("wrong-root", "the root %s is not that of the %d leaves added, %s" % (got, len(leaves), want_root(leaves)))


def judge_proof(sim, proof, leaf, leaves, want_root, tools, ht, secure):
    if tools:
        path = [(a.encode(), bytes.fromhex(b if isinstance(b, str) else b.decode())) for x in proof for a, b in x.items()]
    else:
        path = [(a, bytes.fromhex(b.decode())) for a, b in proof.proof]
        if proof.trie_root.decode() != want_root(leaves):
            sim.fail("wrong-proof-root", "the proof of leaf %s states root %s, that of the %d leaves is %s" % (
                short(leaf), short(proof.trie_root), len(leaves), want_root(leaves)))
        if proof.target_key != leaf:
            sim.fail("wrong-proof", "the proof of leaf %s is for %s" % (short(leaf), short(proof.target_key)))
    if ref.mt_fold(ref.mt_leaf(leaf, ht, secure), path, ht).hex() != want_root(leaves):
        sim.fail("wrong-proof", "the proof of leaf %s does not lead to the root of the %d leaves added" % (
            short(leaf), len(leaves)))


def check_now(sim, tree, leaves, want_root, tools, ht, secure):
    """Whatever state the tree is in, it serves nothing outdated."""
    for leaf in leaves[-2:]:
        out = sim.call(tree.get_proof_of_inclusion, leaf)
        if out.ok:
            judge_proof(sim, out.value, leaf, leaves, want_root, tools, ht, secure)
    judge_root(sim, sim.call(tree.get_merkle_root), leaves, want_root)
