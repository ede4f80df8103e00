"""An adversary on the network between provers and verifiers of trie proofs (P02, P04)."""
from . import gen, ref
from .kernel import short
from .proofworld import EMPT_FORMS, MPT_FORMS, World
from .seams import CLOCK
from .storage import Faults

REAL = ["pymt.mpt", "pymt.empt", "pymt.proof", "pymt.utils", "rlp", "Crypto"]
STUB = ["node and data stores (SimStore)", "network adversary", "clock", "failures and aborts"]
POI, POE = b"MPT-POI", b"MPT-POE"

OPS = ["bit", "bit", "byte", "truncnode", "extnode", "drop", "droplast", "dropfirst", "dup", "swap", "reverse", "rotate",
       "cut", "insert", "replace", "splice", "target", "target", "prefix", "extend", "nibble", "rawkey", "type", "root-current",
       "root-old", "root-other", "root-raw", "root-fab", "null", "null-other", "strip", "fab", "fab-tail", "fab-root", "realroot",
       "leaf", "emptyslot", "setval", "setslot", "pad", "strref", "inline", "unrelated", "ext-leaf", "emptynode"]


def plan(rng, want, tier):
    level = rng.choice(["mpt", "mpt", "empt"])
    nk = rng.choice([1, 1, 2, 3, 5, 8, 14])
    ks = gen.keys(rng, nk)
    ks += gen.near(rng, ks, 6)
    vals = gen.values(rng, 10)
    if rng.random() < 0.4:
        vals[rng.randrange(len(vals))] = b"null"
    forms = list(MPT_FORMS if level == "mpt" else EMPT_FORMS)
    rng.shuffle(forms)
    forms = forms[: rng.choice([2, 4])]
    if rng.random() < 0.7:
        forms[0] = "self"
    steps = []
    for _ in range(rng.choice([1, 2, 4, 8])):
        steps.append({"o": "set", "k": rng.randrange(len(ks)), "v": rng.randrange(len(vals))})
    steps.append({"o": "announce"})
    steps.append({"o": "collect"})
    fp = rng.choice([0, 0, 0.25])
    for _ in range(rng.choice([10, 20, 40])):
        o = gen.pick(rng, {"forge": 12, "change": 1.5, "announce": 0.7, "collect": 0.7, "ask": 1.5})
        if o == "change":
            if rng.random() < 0.55:
                steps.append({"o": "set", "k": rng.randrange(len(ks)), "v": rng.randrange(len(vals))})
            else:
                steps.append({"o": "del", "k": rng.randrange(len(ks))})
        elif o == "announce":
            s = {"o": o, "n": rng.choice([-1, rng.randrange(len(forms))])}
            if rng.random() < 0.3:
                s["back"] = rng.randrange(1, 4)
            steps.append(s)
        elif o == "collect":
            steps.append({"o": o})
        elif o == "ask":
            s = {"o": "ask", "k": rng.randrange(len(ks))}
            if fp and rng.random() < 0.7:
                s["f"] = [gen.store_fault(rng, "t", write=False, errs=("store", "os", "key", "key", "val"))
                          if rng.random() < 0.7 else gen.line_fault(rng, 60)]
            steps.append(s)
        else:
            s = {"o": "forge", "b": rng.randrange(1 << 16), "x": rng.randrange(1 << 16), "n": rng.randrange(len(forms)),
                 "k": rng.randrange(len(ks)), "goal": rng.choice([0, 1, 1, 2]), "ops": [
                     [rng.choice(OPS), rng.randrange(1 << 24), rng.randrange(1 << 24)]
                     for _ in range(rng.choice([0, 1, 1, 1, 2, 2, 3, 5]))]}
            if fp and rng.random() < fp:
                s["f"] = [gen.line_fault(rng, 120)]
            steps.append(s)
    return gen.times(rng, {"cfg": {"secure": rng.random() < 0.3, "level": level, "forms": forms, "want": want},
                           "keys": gen.hexes(ks), "vals": gen.hexes(vals), "steps": steps})


def canon(raw):
    """The form the decoder gives a node it accepts: nothing in it depends on unused pad bits."""
    try:
        n = ref.rlp_dec(raw)

        def sub(r):
            return ref.rlp_dec(r) if isinstance(r, bytes) and 0 < len(r) < 32 else r

        if isinstance(n, list) and len(n) == 2:
            p, leaf = ref.unhp(n[0])
            return ref.rlp_enc([ref.hp(p, leaf), n[1] if leaf else sub(n[1])])
        if isinstance(n, list) and len(n) == 17:
            return ref.rlp_enc([sub(r) for r in n[:16]] + [n[16]])
    except (ref.Bad, IndexError, TypeError):
        pass
    return raw


def shows(proof, root):
    """What the proof's nodes establish about its target under `root`."""
    nodes = [bytes(x) for x in proof.proof if isinstance(x, (bytes, bytearray))]
    st = ref.establish(nodes, root, proof.target_key)[0]
    if st == "unknown":
        st = ref.establish(nodes + [canon(x) for x in nodes], root, proof.target_key)[0]
    return st


def mutate(w, pool, fabs, p, op, hk):
    """p: [target, root, nodes, type]"""
    o, a, b = op
    t, root, ns, ty = p
    ns = list(ns)
    n = len(ns)
    alt = pool[a % len(pool)]
    i = a % n if n else 0
    if o == "bit" and n and ns[i]:
        x = bytearray(ns[i])
        x[(b // 8) % len(x)] ^= 1 << (b % 8)
        ns[i] = bytes(x)
    elif o == "byte" and n and ns[i]:
        x = bytearray(ns[i])
        x[b % len(x)] = (b // 7) % 256
        ns[i] = bytes(x)
    elif o == "truncnode" and n and ns[i]:
        ns[i] = ns[i][: b % len(ns[i])]
    elif o == "extnode" and n:
        ns[i] = ns[i] + bytes([b % 256])
    elif o == "drop" and n:
        ns.pop(i)
    elif o == "droplast":
        ns = ns[:-1]
    elif o == "dropfirst":
        ns = ns[1:]
    elif o == "dup" and n:
        ns.insert(b % (n + 1), ns[i])
    elif o == "swap" and n > 1:
        j = b % n
        ns[i], ns[j] = ns[j], ns[i]
    elif o == "reverse":
        ns.reverse()
    elif o == "rotate" and n:
        ns = ns[i:] + ns[:i]
    elif o == "cut":
        ns = ns[: b % (n + 1)]
    elif o == "insert" and alt.proof:
        ns.insert(b % (n + 1), alt.proof[b % len(alt.proof)])
    elif o == "replace" and n and alt.proof:
        ns[i] = alt.proof[b % len(alt.proof)]
    elif o == "splice":
        c = b % (n + 1)
        ns = ns[:c] + list(alt.proof)[c:]
    elif o == "target":
        t = hk(w.keys[a % len(w.keys)])
    elif o == "prefix":
        t = t[: a % (len(t) + 1)]
    elif o == "extend":
        t = t + bytes([a % 256]) * (1 + b % 2)
    elif o == "nibble" and t:
        x = bytearray(t)
        x[a % len(x)] ^= [1, 16, 0x80, 0x0F][b % 4]
        t = bytes(x)
    elif o == "rawkey":
        t = w.keys[a % len(w.keys)]
    elif o == "type":
        ty = [POI, POE, b"MT-POI"][a % 3] if b % 4 == 0 else (POE if ty == POI else POI)
    elif o == "root-current":
        root = w.t.root_hash() if b % 2 else (w.t.root() or root)
    elif o == "root-old":
        root = w.versions[a % len(w.versions)][0] or ref.EMPTY
    elif o == "root-other":
        root = alt.trie_root
    elif o == "root-raw":
        root = [b"", root[:-1], root + b"\x00", ref.keccak(root), ns[0] if n else b"", ref.EMPTY][a % 6]
    elif o == "root-fab":
        root = fabs(a).root_hash
    elif o == "null":
        nib = ref.nibbles(t)
        ns.append(ref.rlp_enc([ref.hp(nib[b % (len(nib) + 1):] if b % 3 else nib, True), b"null"]))
    elif o == "null-other":
        ns.append(ref.rlp_enc([ref.hp(ref.nibbles(w.keys[a % len(w.keys)]), True), b"null"]))
    elif o == "strip":
        ns = [x for x in ns if not x.endswith(b"null")]
    elif o in ("fab", "fab-tail", "fab-root"):
        # nodes of a trie the adversary made up, in which the claim is true
        f = fabs(a)
        path = fab_path(f, t)
        if ty == POE:
            path = path + ns[-1:]
        if o == "fab":
            ns = path
        elif o == "fab-tail":
            ns = ns[: 1 + b % max(1, n)] + path
        else:
            ns, root = path, f.root_hash
    elif o == "realroot":
        r = ref.Trie(w.stored(w.model), w.secure).root_raw
        ns = [r] + ns if b % 2 else [r] + ns[1:]
    elif o == "leaf":
        nib = ref.nibbles(t)
        lf = ref.rlp_enc([ref.hp(nib[b % (len(nib) + 1):], True), b"forged"])
        ns = ns[: i + 1] + [lf] + (ns[-1:] if ty == POE else [])
    elif o in ("emptyslot", "setval", "setslot", "pad", "strref", "inline", "ext-leaf") and n:
        try:
            x = ref.rlp_dec(ns[i])
            if o == "emptyslot" and len(x) == 17:
                x[b % 17] = b""
            elif o == "setval":
                x[-1] = [b"forged", b"null", b"\x01"][b % 3]
            elif o == "setslot" and len(x) == 17:
                nib = ref.nibbles(t)
                x[b % 16] = [ref.hp(nib[1 + b % max(1, len(nib)):], True), b"F"]
            elif o == "pad" and len(x) == 2:
                h = bytearray(x[0])
                h[0] ^= [0x40, 0x80, 0x01, 0x08, 0x10, 0x20][b % 6]
                x[0] = bytes(h)
            elif o == "strref":
                j = b % len(x)
                x[j] = ref.rlp_enc(x[j]) if isinstance(x[j], list) else x[j]
            elif o == "inline" and n > 1:
                j = b % len(x)
                if isinstance(x[j], bytes) and len(x[j]) == 32:
                    x[j] = ref.rlp_dec(ns[(i + 1) % n])
            elif o == "ext-leaf" and len(x) == 2:
                p, leaf = ref.unhp(x[0])
                x[0] = ref.hp(p, not leaf)
            ns[i] = ref.rlp_enc(x)
        except (ref.Bad, IndexError, TypeError, KeyError, ZeroDivisionError, ValueError):
            pass
    elif o == "unrelated":
        ns.insert(b % (n + 1), ref.rlp_enc([ref.hp([a % 16], True), b"x" * (a % 40)]))
    elif o == "emptynode":
        ns.insert(b % (n + 1), [b"", b"\x80", b"\xc0", b"\x00"][a % 4])
    return [t, root, ns, ty]


def fab_path(f, target):
    """Nodes from the root of reference trie f towards target."""
    out, path, node = [], ref.nibbles(target), f.root_node
    while isinstance(node, list):
        out.append(ref.rlp_enc(node))
        if len(node) == 17:
            if not path or node[path[0]] == b"":
                break
            r, path = node[path[0]], path[1:]
        else:
            p, leaf = ref.unhp(node[0])
            if leaf or path[: len(p)] != p:
                break
            r, path = node[1], path[len(p):]
        node = r if isinstance(r, list) else ref.rlp_dec(f.nodes[r])
    return out


def run(sim, plan):
    w = World(sim, plan)
    want = plan["cfg"]["want"]  # "poi": forged inclusion proofs, "poe": forged exclusion proofs
    P, secure = sim.P, w.secure
    stores = {"t": w.nodes, "d": w.data}
    pool = []

    def hk(k):
        return ref.keccak(k) if secure else k

    def collect():
        for k in w.keys:
            for fn, kind in ((w.t.get_proof_of_inclusion, True), (w.t.get_proof_of_exclusion, False)):
                out = sim.call(fn, k)
                if out.ok and len(pool) < 120:
                    if kind != (k in w.model):
                        sim.fail("obtained", "an %s proof was obtained for %s key %s" % (
                            "inclusion" if kind else "exclusion", "present" if k in w.model else "absent", short(k)))
                    pool.append(out.value)

    for s in plan["steps"]:
        o = s["o"]
        sim.ops[o] += 1
        CLOCK.advance(s.get("dt", 0.5))
        if o == "set":
            w.set(w.keys[s["k"]], w.vals[s["v"]])
            w.publish()
            sim.log("set", w.keys[s["k"]], w.t.root_hash())
        elif o == "del":
            if w.keys[s["k"]] in w.model:
                w.delete(w.keys[s["k"]])
                w.publish()
                sim.log("del", w.keys[s["k"]])
        elif o == "announce":
            ver = max(0, len(w.versions) - 1 - s.get("back", 0))
            if s.get("back"):
                sim.fault("net-stale-announcement")
            for i in range(len(w.forms)):
                if s.get("n", -1) in (-1, i):
                    w.announce(i, ver)
        elif o == "collect":
            collect()
        elif o == "ask":
            k = w.keys[s["k"]]
            fn = w.t.get_proof_of_inclusion if want == "poi" else w.t.get_proof_of_exclusion
            f0 = sim.fired()
            with Faults(sim, stores, s.get("f")):
                out = sim.call(fn, k)
            sim.log("ask", k, out.ok, out.err or "")
            if sim.fired() > f0:
                sim.probe("asked-under-fault")
            if (k in w.model) == (want == "poe"):
                sim.probe("asked-wrong-kind")
                if out.ok and w.model:
                    sim.fail("obtained", "an %s proof was obtained for %s key %s%s" % (
                        "inclusion" if want == "poi" else "exclusion", "present" if k in w.model else "absent", short(k),
                        " while reads failed" if sim.fired() > f0 else ""))
        elif o == "forge" and pool:
            forge(sim, w, s, want, pool, hk, stores)


def forge(sim, w, s, want, pool, hk, stores):
    P, secure = sim.P, w.secure
    v, content = w.verifier(s["n"] % len(w.forms))
    form = w.forms[s["n"] % len(w.forms)]
    k = w.keys[s["k"]]
    own, other = (POI, POE) if want == "poi" else (POE, POI)
    # the base: any recorded proof, one about the wished-for key, or one for a key in the wrong state
    cand = pool
    if s["goal"] == 1:
        wrong = [p for p in pool if p.type == other]
        cand = wrong or pool
    elif s["goal"] == 2:
        cand = [p for p in pool if p.target_key == hk(k)] or pool
    base = cand[s["b"] % len(cand)]
    p = [base.target_key, base.trie_root, list(base.proof), base.type]
    if p[3] == other and s["goal"] and s["x"] % 8:
        # the other kind relabelled, with or without the closing null leaf
        p[3] = own
        x = s["x"] // 8
        if own == POE:
            m = x % 4
            if m == 1:
                p[2] = p[2][:-1]
            if m != 3:
                nib = ref.nibbles(p[0])
                p[2] = p[2] + [ref.rlp_enc([ref.hp(nib if x % 3 else nib[x % (len(nib) + 1):], True), b"null"])]
        elif x % 2:
            p[2] = p[2][:-1]

    def fabs(a):
        """A trie in which the claim would be true: the current one with the target added or removed."""
        m = {hk(q): d for q, d in w.stored(content).items()}
        if want == "poi":
            m[p[0]] = b"forged"
        else:
            m.pop(p[0], None)
            if a % 2 or not m:
                m[p[0] + b"\x01"] = b"decoy"
        return ref.Trie(m)

    for op in s["ops"]:
        p = mutate(w, pool, fabs, p, op, hk)
        sim.fault("net-forge-" + op[0])
    if want == "poe" and p[3] == POI or want == "poi" and p[3] == POE:
        p[3] = own if s["x"] % 3 else p[3]
    out = sim.call(P.Proof, target_key=p[0], root_hash=p[1], proof=tuple(p[2]), proof_type=p[3])
    if not out.ok:
        sim.probe("unbuildable")
        return
    proof = out.value
    before = v.root_hash()
    with Faults(sim, stores, s.get("f")):
        out = sim.call(v.verify_proof_of_inclusion if want == "poi" else v.verify_proof_of_exclusion, proof)
    sim.log("forge", form, p[3].decode(), p[0], str(len(p[2])), out.ok, out.err or out.value)
    if v.root_hash() != before:
        sim.fail("verify-changed-root", "verification changed the verifier's root")
    true = {hk(q) for q in content}
    if not (out.ok and out.value):
        sim.probe("rejected" if out.ok else "rejected-raised")
        if not content:
            sim.probe("verifier-empty")
        if (p[0] in true) == (want == "poe"):
            sim.probe("false-claim-rejected")
        return
    sim.probe("accepted")
    what = "inclusion" if want == "poi" else "exclusion"
    ops = "+".join(x[0] for x in s["ops"]) or "replay"
    root = ref.root_hash(w.stored(content), secure)
    if p[3] != own:
        sim.fail("wrong-type", "%s verifier accepts a record of type %r as an %s proof (%s)" % (form, p[3], what, ops))
    if (p[0] in true) == (want == "poe"):
        sim.fail("forged", "%s verifier holding %d entries accepts a forged %s proof of %s key %s (%s)" % (
            form, len(content), what, "present" if p[0] in true else "absent", short(p[0]), ops))
    st = shows(proof, root)
    if st != ("present" if want == "poi" else "absent"):
        sim.fail("unproven", "%s verifier accepts an %s proof whose nodes do not establish it (%s; %s; key %s)" % (
            form, what, st, ops, short(p[0])))
    raw = ref.Trie(w.stored(content), secure).root_raw
    if p[1] != root and not (len(raw) < 32 and p[1] == raw):
        sim.fail("root", "%s verifier accepts an %s proof recorded for root %s while its own is %s (%s)" % (
            form, what, short(p[1]), short(root), ops))
    if s["ops"]:
        sim.probe("accepted-modified-true")
