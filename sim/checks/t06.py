"""T06: a serialized trie restores exactly, and damaged bytes cannot forge values."""
from .. import gen, ref
from ..kernel import short
from ..seams import CLOCK
from ..storage import Faults, SimStore
from ..world import check_proofs, hashed, sim_keys

RUNS = {"quick": 6500, "thorough": 60000}
RULE = ("Tries of every form, after any history, are serialized (with failing store reads and aborts), carried over a network that "
        "delays, duplicates, damages and mixes messages, restored and relayed; undamaged copies must equal the sender's contents, "
        "root and mode and evolve identically (roots, reads and proofs compared with the reference after every update); damaged "
        "ones must raise, show another root, or answer reads with the original value or an error only.")
REAL = ["pymt.mpt", "pymt.empt", "pymt.utils", "rlp", "Crypto"]
STUB = ["node and data stores (SimStore)", "network (generated delivery sequence)", "clock"]
ASSUME = []
PROBES = ("restored", "restored-empty", "restored-emptied", "restored-tiny", "restored-root-only", "restored-sparse", "relayed",
          "evolved", "damaged-raised", "damaged-other-root", "damaged-same-root", "damaged-read-raised", "encode-failed",
          "secure", "shared-store", "large-store", "duplicate")
DMG = ["flip", "flip", "flip", "byte", "trunc", "ext", "drop", "dup", "zero", "splice", "nodes-drop", "nodes-dup", "nodes-swap",
       "nodes-splice", "nodes-flip", "nodes-flip", "root", "flag", "order"]


def plan(rng, i, tier):
    form = rng.choice(["mpt", "mpt", "mpt-shared", "sparse", "sparse", "empt", "empt"])
    nk = rng.choice([1, 1, 2, 3, 5, 9, 16]) if tier == "quick" else rng.choice([1, 2, 4, 9, 16, 50, 120])
    ks = gen.keys(rng, nk)
    ks += gen.near(rng, ks, 4)
    vals = gen.values(rng, 10)
    if rng.random() < 0.05:
        for j in range(0, 10, 2):
            vals[j] = gen.rnd(rng, 40) * rng.choice([110, 420, 1640, 1640, 2000])
    steps, nm, nr = [], 0, 0
    for _ in range(rng.choice([0, 1, 1, 2, 4, 9]) if nk < 20 else nk):
        steps.append({"o": "set", "k": rng.randrange(len(ks)), "v": rng.randrange(len(vals))})
    dmgp = rng.choice([0.2, 0.5, 0.8])
    fp = rng.choice([0, 0, 0.4])
    for _ in range(rng.choice([6, 12, 24])):
        o = gen.pick(rng, {"set": 2, "del": 2, "wipe": 0.3, "ship": 3, "deliver": 5, "evolve": 3, "relay": 0.7})
        s = {"o": o}
        if o == "set":
            s.update(k=rng.randrange(len(ks)), v=rng.randrange(len(vals)))
        elif o == "del":
            s.update(k=rng.randrange(len(ks)))
        elif o == "ship":
            s.update(m=nm, root=rng.random() < 0.25)
            nm += 1
            if fp and rng.random() < fp:
                s["f"] = [gen.store_fault(rng, "t", write=False) if rng.random() < 0.6 else gen.line_fault(rng, 40)]
        elif o == "relay":
            s.update(m=nm, r=rng.randrange(8))
            nm += 1
        elif o == "deliver":
            s.update(m=rng.randrange(max(1, nm)), dt=round(rng.expovariate(1), 2), cls=rng.randrange(4))
            if rng.random() < dmgp:
                s["dmg"] = [[rng.choice(DMG), rng.randrange(1 << 24), rng.randrange(1 << 24)]
                            for _ in range(rng.choice([1, 1, 1, 2]))]
        elif o == "evolve":
            s.update(r=rng.randrange(8), ops=[
                {"o": rng.choice(["set", "set", "del"]), "k": rng.randrange(len(ks)), "v": rng.randrange(len(vals))}
                for _ in range(rng.choice([1, 2, 4]))])
        steps.append(s)
    if rng.random() < 0.008:
        steps.insert(rng.randrange(len(steps)), {"o": "churn", "n": rng.choice([120, 300, 1100, 1500, 1500])})
        steps += [{"o": "ship", "m": nm, "root": False}, {"o": "deliver", "m": nm, "dt": 1.0, "cls": rng.randrange(4)}]
    return gen.times(rng, {"cfg": {"secure": rng.random() < 0.4, "form": form, "junk": rng.randrange(6)},
                           "keys": gen.hexes(ks), "vals": gen.hexes(vals), "steps": steps})


def damage(x, d, others):
    kind, a, b = d
    x = bytearray(x)
    if kind == "flip" and x:
        x[(a // 8) % len(x)] ^= 1 << (a % 8)
    elif kind == "byte" and x:
        x[a % len(x)] = b % 256
    elif kind == "trunc":
        x = x[: a % (len(x) + 1)]
    elif kind == "ext":
        x += bytes([b % 256]) * (1 + a % 4)
    elif kind == "drop" and x:
        i = a % len(x)
        del x[i: i + 1 + b % 40]
    elif kind == "dup" and x:
        i = a % len(x)
        x[i:i] = x[i: i + 1 + b % 40]
    elif kind == "zero" and x:
        i = a % len(x)
        n = min(1 + b % 64, len(x) - i)
        x[i: i + n] = bytes(n)
    elif kind == "splice" and others:
        o = others[a % len(others)]
        c = b % (len(x) + 1)
        x = x[:c] + bytearray(o[c:])
    elif kind in ("nodes-drop", "nodes-dup", "nodes-swap", "nodes-splice", "nodes-flip", "root", "flag", "order"):
        try:
            p = ref.rlp_dec(bytes(x))
            o = ref.rlp_dec(others[b % len(others)]) if others else p
            nodes = p[1]
            if kind == "nodes-drop" and nodes:
                nodes.pop(a % len(nodes))
            elif kind == "nodes-dup" and nodes:
                nodes.append(nodes[a % len(nodes)])
            elif kind == "nodes-swap" and len(nodes) > 1:
                i, j = a % len(nodes), b % len(nodes)
                nodes[i], nodes[j] = nodes[j], nodes[i]
            elif kind == "nodes-splice" and nodes and o[1]:
                nodes[a % len(nodes)] = o[1][b % len(o[1])]
            elif kind == "nodes-flip" and nodes:
                n = bytearray(nodes[a % len(nodes)])
                if n:
                    n[(b // 8) % len(n)] ^= 1 << (b % 8)
                nodes[a % len(nodes)] = bytes(n)
            elif kind == "root":
                p[0] = o[0] if a % 2 else ref.keccak(nodes[b % len(nodes)]) if nodes else b""
            elif kind == "flag":
                p[2] = b"" if p[2] else b"\x01"
            elif kind == "order":
                nodes.sort(key=lambda z: ref.keccak(z + bytes([a % 256])))
            x = bytearray(ref.rlp_enc(p))
        except (ref.Bad, IndexError, TypeError, AttributeError):
            pass
    return bytes(x)


class Copy:
    """A restored trie and what it should hold."""

    def __init__(self, t, kind, model):
        self.t, self.kind, self.model = t, kind, dict(model)


def run(sim, plan):
    keys, vals = sim_keys(plan)
    secure, form = plan["cfg"]["secure"], plan["cfg"]["form"]
    refs = form in ("sparse", "empt")  # the trie holds data references
    P = sim.P
    store = SimStore(sim, "t")
    stores = {"t": store}
    if form == "mpt-shared":
        other = P.MPT(store, secure=secure)
        for j in range(plan["cfg"]["junk"]):
            other.update(b"other%d" % j, b"junk%d" % (j * 7919))
        src = P.MPT(store, secure=secure)
        sim.probe("shared-store")
    elif form == "mpt":
        src = P.MPT(store, secure=secure)
    elif form == "sparse":
        src = P.SparseEMPT(store, secure=secure)
    else:
        src = P.EMPT(store, SimStore(sim, "d"), secure=secure)
    if secure:
        sim.probe("secure")
    model = {}
    msgs = {}
    copies = []
    ever = 0

    def holds(m):
        return {k: ref.data_ref(k, v) for k, v in m.items()} if refs else m

    def value(t, kind, k):
        """The value a restored trie reads, in the terms of the model."""
        if kind == "sparse":
            return t.get_reference(k).data
        v = t.get(k) if len(k) % 2 else t[k]
        return v

    def change(t, kind, s, m):
        k = keys[s["k"]]
        v = vals[s["v"]] if "v" in s else b""
        if s["o"] == "set":
            if kind == "mpt" and refs:
                t[k] = ref.data_ref(k, v)
            else:
                t[k] = v
            m[k] = v
        elif k in m:
            out = sim.call(t.__delitem__, k)
            if not out.ok:
                sim.fail("delete", "deleting present key %s %r" % (short(k), out))
            del m[k]

    def encode(t, kind, root):
        """(bytes, decoder name)"""
        if kind == "empt":
            t = t.get_sparse_trie()
            kind = "sparse"
        if kind == "root":
            return t.encode_rlp(), "root"
        if root:
            r = t.get_root_trie() if kind == "sparse" else P.RootEMPT(root=t.root(), secure=secure)
            return r.encode_rlp(), "root"
        return (t.encode_rlp() if kind == "sparse" else t.encode()), kind

    def verify(c, tag):
        t, kind, m = c.t, c.kind, c.model
        want = ref.root_hash(holds(m), secure)
        if t.root_hash() != want:
            sim.fail(tag + "-root", "restored %s trie of %d entries has root hash %s, the original's is %s" % (
                kind, len(m), short(t.root_hash()), short(want)))
        if kind == "root":
            full = P.MPT({}, secure=secure)
            for k in sorted(m):
                full.update(k, holds(m)[k])
            for k in keys[:6]:
                if k in m or m:
                    pr = full.get_proof_of_inclusion(k) if k in m else full.get_proof_of_exclusion(k)
                    out = sim.call(t.verify_proof_of_inclusion if k in m else t.verify_proof_of_exclusion, pr)
                    if not out.ok or out.value is not True:
                        sim.fail(tag + "-proof", "restored root-only trie does not accept the proof of key %s (present: %r): %r" % (
                            short(k), k in m, out))
            return
        if getattr(t, "secure", secure) != secure:
            sim.fail(tag + "-mode", "restored trie is secure=%r, the original secure=%r" % (t.secure, secure))
        for j, k in enumerate(keys):
            out = sim.call(value, t, kind, k)
            if k in m:
                w = holds(m)[k] if kind == "mpt" else m[k]
                if not out.ok or out.value != w:
                    sim.fail(tag + "-read", "restored trie: reading key %s %r, the original holds %s" % (short(k), out, short(w)))
            elif out.ok:
                sim.fail(tag + "-phantom", "restored trie: reading absent key %s %r" % (short(k), out))
            out = sim.call(lambda: k in t)
            if not out.ok or bool(out.value) != (k in m):
                sim.fail(tag + "-member", "restored trie: membership of key %s %r, present: %r" % (short(k), out, k in m))
        for k in keys[:3]:
            check_proofs(sim, t, holds(m), k, secure, tag)

    def emit(n, t, kind, root, m, faults=None):
        f0 = sim.fired()
        with Faults(sim, stores, faults):
            out = sim.call(encode, t, kind, root)
        if not out.ok:
            if sim.fired() > f0:
                sim.probe("encode-failed")
                sim.log("ship-failed", out.err)
                return
            sim.fail("encode", "serializing a %s trie of %d entries %r" % (kind, len(m), out))
        if not isinstance(out.value[0], bytes):
            sim.fail("encode", "serializing gives %s" % short(out.value[0]))
        msgs[n] = [out.value[0], out.value[1], dict(m), 0, ever > 0]
        sim.log("ship", out.value[1], str(len(m)), out.value[0] if form == "mpt" and not faults else "")

    for s in plan["steps"]:
        o = s["o"]
        sim.ops[o] += 1
        if s.get("dt"):
            CLOCK.advance(s["dt"])
        if o in ("set", "del"):
            change(src, "empt" if form == "empt" else "sparse" if form == "sparse" else "src", s, model)
            ever += o == "set"
        elif o == "churn":  # the store fills up with nodes of another trie
            other = P.MPT(store, secure=secure)
            for j in range(s["n"]):
                other.update(ref.keccak(b"%d" % j), b"junk %d" % j)
            sim.probe("large-store")
        elif o == "wipe":
            for k in sorted(model):
                del src[k]
            model.clear()
        elif o == "ship":
            emit(s["m"], src, form if form in ("sparse", "empt") else "mpt", s["root"], model, s.get("f"))
        elif o == "relay" and copies:
            c = copies[s["r"] % len(copies)]
            emit(s["m"], c.t, c.kind, False, c.model)
            sim.probe("relayed")
        elif o == "deliver" and s["m"] in msgs:
            msg = msgs[s["m"]]
            raw, kind, m = msg[0], msg[1], msg[2]
            if msg[3]:
                sim.fault("net-duplicate")
                sim.probe("duplicate")
            msg[3] += 1
            dec = {"mpt": P.MPT.decode, "sparse": P.SparseEMPT.decode_rlp, "root": P.RootEMPT.decode_rlp}[kind]
            if kind == "sparse" and s["cls"] == 0:
                kind, dec = "mpt", P.MPT.decode  # the same encoding read as a plain trie of references
            wire = raw
            for d in s.get("dmg", ()):
                wire = damage(wire, d, [msgs[x][0] for x in sorted(msgs)])
                if wire != raw:
                    sim.fault("net-damage-" + d[0])
            out = sim.call(dec, wire)
            sim.sig.update(b"d%d" % s["m"])
            sim.log("restore", kind, out.ok, out.err or "")
            if wire == raw:
                if not out.ok:
                    sim.fail("restore", "restoring a serialized %s trie of %d entries %r" % (kind, len(m), out))
                c = Copy(out.value, kind, m)
                verify(c, "restored")
                if len(copies) < 5:
                    copies.append(c)
                sim.probe("restored")
                if not m:
                    sim.probe("restored-emptied" if msg[4] else "restored-empty")
                if len(m) == 1 and len(ref.Trie(holds(m), secure).root_raw) < 32:
                    sim.probe("restored-tiny")
                if kind in ("root", "sparse"):
                    sim.probe("restored-root-only" if kind == "root" else "restored-sparse")
                continue
            if not out.ok:
                sim.probe("damaged-raised")
                continue
            t = out.value
            out = sim.call(lambda: t.root_hash())
            if not out.ok or out.value != ref.root_hash(holds(m), secure):
                sim.probe("damaged-other-root")
                continue
            sim.probe("damaged-same-root")
            if kind == "root":
                continue
            for k in keys:
                out = sim.call(value, t, kind, k)
                if not out.ok:
                    sim.probe("damaged-read-raised")
                elif k not in m or out.value != (holds(m)[k] if kind == "mpt" else m[k]):
                    sim.fail("forged", "restored from damaged bytes (%s) with the original's root: reading key %s returned %s, the original holds %s" % (
                        "+".join(d[0] for d in s["dmg"]), short(k), short(out.value), short(m[k]) if k in m else "nothing"))
        elif o == "evolve" and copies:
            c = copies[s["r"] % len(copies)]
            if c.kind == "root":
                continue
            twin = P.MPT({}, secure=secure)  # the original going through the same changes
            for k in sorted(c.model):
                twin[k] = holds(c.model)[k]
            for op in s["ops"]:
                change(c.t, c.kind, op, c.model)
                k = keys[op["k"]]
                if k in c.model:
                    twin[k] = holds(c.model)[k]
                elif k in twin:
                    del twin[k]
                if c.t.root_hash() != twin.root_hash():
                    sim.fail("evolve-differs", "after the same changes the restored trie has root %s, the original %s" % (
                        short(c.t.root_hash()), short(twin.root_hash())))
            verify(c, "evolved")
            sim.probe("evolved")
    for c in copies:
        verify(c, "final")
    sim.log("end", src.root_hash())
