"""M02: no Merkle-tree proof is accepted for a value that is not a leaf."""
from .. import gen, ref
from ..kernel import short
from ..seams import CLOCK
from ..world import sim_keys  # noqa: F401

RUNS = {"quick": 24000, "thorough": 300000}
RULE = ("Honest proofs of a changing Merkle tree pass a network and an adversary that corrupts, truncates, extends, reorders, "
        "splices and fabricates them (targets made of inner nodes or shifted leaf boundaries, other roots, other trees); an "
        "accepted proof must have a current leaf as target, a path that hashes to its root, and the current root.")
REAL = ["pymt.mt", "pymt.merkletools", "pymt.proof", "hashlib"]
STUB = ["network and adversary", "clock"]
PROBES = ("accepted-genuine", "forged-nonleaf", "valid-chain-nonleaf", "stale", "foreign-root", "codec", "unbuilt-verifier", "held-inner-nodes",
          "secure", "unsecured")
HT = ["sha256", "sha256", "md5", "sha224", "sha384", "sha512", "sha3_256", "sha3_224", "sha3_384", "sha3_512"]
MUTS = ["flip-path", "flip-root", "flip-target", "drop", "dup", "swap", "side", "allsides", "insert", "trunc", "reverse",
        "target-value", "target-leafdigest", "target-inner", "target-concat", "target-shift", "target-hex", "target-empty",
        "root-current", "root-old", "root-other", "root-case", "root-raw", "root-fold", "splice-path", "splice-target", "splice-root",
        "inner-path", "garbage-hex", "odd-entry", "type"]


def plan(rng, i, tier):
    vals = gen.values(rng, rng.choice([3, 6, 12]))
    vals += [b"a", b"ab", b"b", b"bc", b"abc"][: rng.randrange(6)]
    steps, nm = [], 0
    for _ in range(rng.choice([1, 2, 3, 5, 8, 16, 17]) if i % 100 != 49 else rng.choice([32, 33, 63, 65, 100, 130] if i % 500 != 249 else [257, 513, 700])):
        steps.append({"o": "put", "v": rng.randrange(len(vals))})
    for _ in range(rng.choice([6, 14, 28])):
        o = gen.pick(rng, {"put": 1.2, "reset": 0.15, "cycle": 0.2, "make": 0.8, "prove": 3, "other": 0.3, "forge": 7, "deliver": 1.5})
        s = {"o": o}
        if o in ("put", "other"):
            s["v"] = rng.randrange(len(vals))
        elif o == "prove":
            s.update(i=rng.randrange(1 << 16), m=nm)
            nm += 1
        elif o in ("forge", "deliver"):
            s["m"] = rng.randrange(nm + 1)
            s["dt"] = round(rng.expovariate(1), 2)
            if o == "forge":
                n = rng.choice([1, 1, 1, 2, 2, 3])
                s["mut"] = [[rng.choice(MUTS), rng.randrange(1 << 20), rng.randrange(1 << 20)] for _ in range(n)]
                if rng.random() < 0.25:  # a whole attack
                    s["mut"] = rng.choice([
                        [["inner-path", rng.randrange(1 << 20), 0]],
                        [["inner-path", rng.randrange(1 << 20), 1]],
                        [["target-shift", rng.randrange(1 << 20), rng.randrange(1 << 20)]],
                        [["target-value", rng.randrange(1 << 20), 0], ["root-fold", 0, 0]],
                        [["target-value", rng.randrange(1 << 20), 0], ["trunc", 0, 0], ["root-current", 0, 0]],
                        [["flip-path", rng.randrange(1 << 20), 0], ["root-fold", 0, 0]],
                    ])
                s["codec"] = rng.random() < 0.15
        steps.append(s)
    return gen.times(rng, {"cfg": {"secure": rng.random() < 0.55, "ht": rng.choice(HT)}, "vals": gen.hexes(vals), "steps": steps})


def run(sim, plan):
    vals = gen.unhex(plan["vals"])
    ht, secure = plan["cfg"]["ht"], plan["cfg"]["secure"]
    P = sim.P
    tree = P.MerkleTree(secure=secure, hash_type=ht)
    other = P.MerkleTree(secure=secure, hash_type=ht)
    leaves, oleaves, roots = [], [], []
    msgs = {}
    sim.probe("secure" if secure else "unsecured")

    def cur():
        return ref.mt_root(leaves, ht, secure).hex().encode() if leaves else b""

    for s in plan["steps"]:
        o = s["o"]
        sim.ops[o] += 1
        if s.get("dt"):
            CLOCK.advance(s["dt"])
        if o == "put":
            tree.put(vals[s["v"]])
            leaves.append(vals[s["v"]])
        elif o == "other":
            other.put(vals[s["v"]])
            oleaves.append(vals[s["v"]])
        elif o == "reset":
            tree.reset_tree()
            leaves = []
        elif o == "cycle":
            # meanwhile the tree holds the inner nodes of what it held and will hold again
            lv = ref.mt_levels(leaves, ht, secure)[1:] if leaves else []
            tree.reset_tree()
            for row in lv:
                for x in row:
                    tree.put(x)
            if lv:
                tree.make_tree()
                sim.call(tree.verify_proof_of_inclusion, tree.get_proof_of_inclusion(lv[-1][0]))
                sim.probe("held-inner-nodes")
            tree.reset_tree()
            tree.put_list(leaves)
        elif o == "make":
            if leaves:
                tree.make_tree()
                roots.append(cur())
        elif o == "prove":
            src, ls = (tree, leaves) if not oleaves or s["i"] % 5 else (other, oleaves)
            if not ls:
                continue
            src.make_tree()
            p = src.get_proof_of_inclusion(ls[s["i"] % len(ls)])
            msgs[s["m"]] = p
            roots.append(p.trie_root)
            sim.log("prove", p.target_key, p.trie_root)
        elif o in ("forge", "deliver"):
            if not msgs:
                continue
            ids = sorted(msgs)
            base = msgs[ids[s["m"] % len(ids)]]
            target, root, path = base.target_key, base.trie_root, [tuple(x) for x in base.proof]
            kind = b"MT-POI"
            for m, a, b in s.get("mut", ()):
                target, root, path, kind = mutate(m, a, b, target, root, path, kind, msgs, leaves, oleaves, roots, vals, ht, secure)
                sim.fault("adversary-" + m)
            out = sim.call(lambda: P.Proof(target_key=target, root_hash=root, proof=tuple(path), proof_type=kind))
            if not out.ok:
                continue
            proof = out.value
            if s.get("codec"):
                out = sim.call(lambda: P.Proof.decode_rlp(proof.encode_rlp()))
                sim.probe("codec")
                if not out.ok:
                    continue
                proof = out.value
            if not tree.get_tree_ready_state():
                sim.probe("unbuilt-verifier")
            out = sim.call(tree.verify_proof_of_inclusion, proof)
            sim.log("verify", target, root, str(len(path)), out.ok, out.err or out.value)
            is_leaf = target in leaves
            chain = fold(target, path, ht, secure)
            if not is_leaf:
                sim.probe("forged-nonleaf")
                if chain is not None and chain == root and root == cur():
                    sim.probe("valid-chain-nonleaf")
            if root != cur():
                sim.probe("foreign-root" if root not in roots else "stale")
            if out.ok and out.value:
                if not is_leaf:
                    sim.fail("nonleaf-accepted", "the tree of %d leaves (%s, secure %s) accepts a proof of %s, which is no leaf" % (
                        len(leaves), ht, secure, short(target)))
                if root != cur():
                    sim.fail("root-accepted", "a proof stating root %s is accepted by a tree with root %s" % (
                        short(root), short(cur())))
                if chain != root:
                    sim.fail("path-accepted", "a proof of leaf %s whose path does not lead to its root is accepted" % short(target))
                sim.probe("accepted-genuine")


def fold(target, path, ht, secure):
    """Root hex the path leads to, or None if the path is not well formed."""
    out = []
    try:
        for e in path:
            side = bytes(e[0])
            if side not in (b"left", b"right"):
                return None
            out.append((side, bytes.fromhex(bytes(e[1]).decode())))
    except (ValueError, TypeError, IndexError):
        return None
    return ref.mt_fold(ref.mt_leaf(target, ht, secure), out, ht).hex().encode()


def flip(x, a):
    x = bytearray(x)
    if x:
        x[(a // 8) % len(x)] ^= 1 << (a % 8)
    return bytes(x)


def hexflip(x, a):
    """Another hex digit, so that the entry stays well formed."""
    x = bytearray(x)
    if x:
        i = a % len(x)
        x[i] = b"0123456789abcdef"[(b"0123456789abcdef".find(bytes(x[i:i + 1])) + 1 + a % 15) % 16]
    return bytes(x)


def two(e):
    return (tuple(e) + (b"",))[:2] if isinstance(e, tuple) else (b"left", e)


def mutate(m, a, b, target, root, path, kind, msgs, leaves, oleaves, roots, vals, ht, secure):
    path = list(path)
    n = len(path)
    ids = sorted(msgs)
    alt = msgs[ids[a % len(ids)]]
    if m == "flip-path" and n:
        side, h = two(path[a % n])
        path[a % n] = (side, hexflip(h, b))
    elif m == "garbage-hex" and n:
        side, h = two(path[a % n])
        path[a % n] = (side, [b"", b"zz", h[:-1], h + b"00", h.upper(), b" " + h, h[: len(h) // 2]][b % 7])
    elif m == "odd-entry" and n:
        side, h = two(path[a % n])
        path[a % n] = [(h, side), (b"up", h), (side, h, h), (side,), h, (b"left", h, b"right", h)][b % 6]
    elif m == "flip-root":
        root = hexflip(root, a) if b % 3 else flip(root, a)
    elif m == "flip-target":
        target = flip(target, a)
    elif m == "drop" and n:
        del path[a % n]
    elif m == "dup" and n:
        path.insert(b % (n + 1), path[a % n])
    elif m == "swap" and n > 1:
        i, j = a % n, b % n
        path[i], path[j] = path[j], path[i]
    elif m == "side" and n:
        e = two(path[a % n])
        path[a % n] = (b"left" if e[0] == b"right" else b"right",) + tuple(e[1:])
    elif m == "allsides":
        path = [(b"left" if e[0] == b"right" else b"right",) + tuple(e[1:]) for e in path if isinstance(e, tuple)]
    elif m == "insert":
        pool = [x for i in ids for x in msgs[i].proof] + [(b"left", root), (b"right", b"00" * 32)]
        path.insert(b % (n + 1), tuple(pool[a % len(pool)]))
    elif m == "trunc":
        path = path[: a % (n + 1)] if b % 2 else path[a % (n + 1):]
    elif m == "reverse":
        path.reverse()
    elif m == "target-value":
        target = vals[a % len(vals)]
    elif m == "target-leafdigest":
        ls = leaves or oleaves
        if ls:
            target = ref.mt_leaf(ls[a % len(ls)], ht, True)
    elif m == "target-hex":
        target = [target.hex().encode(), root, target + b"\x00", b"\x00" + target, target[:-1]][a % 5]
    elif m == "target-empty":
        target = b""
    elif m == "target-inner" and leaves:
        lv = ref.mt_levels(leaves, ht, secure)
        row = lv[a % len(lv)]
        target = row[b % len(row)]
    elif m == "target-concat" and leaves:
        lv = ref.mt_levels(leaves, ht, secure)
        row = lv[a % len(lv)]
        if len(row) > 1:
            i = (b % (len(row) // 2)) * 2
            target = row[i] + row[i + 1]
    elif m == "target-shift" and n:
        # another split of the same bytes between the target and its first sibling
        e = two(path[0])
        try:
            sib = bytes.fromhex(e[1].decode())
        except (ValueError, TypeError, IndexError, UnicodeDecodeError, AttributeError):
            return target, root, path, kind
        t = ref.mt_leaf(target, ht, secure)
        whole = sib + t if e[0] == b"left" else t + sib
        cut = a % (len(whole) + 1)
        if e[0] == b"left":
            sib, t = whole[:cut], whole[cut:]
        else:
            t, sib = whole[:cut], whole[cut:]
        target = t
        path[0] = (e[0], sib.hex().encode())
    elif m == "root-current" and leaves:
        root = ref.mt_root(leaves, ht, secure).hex().encode()
    elif m == "root-old" and roots:
        root = roots[a % len(roots)]
    elif m == "root-other" and oleaves:
        root = ref.mt_root(oleaves, ht, secure).hex().encode()
    elif m == "root-case":
        root = [root.upper(), root + b" ", b" " + root, b"0x" + root][a % 4]
    elif m == "root-raw":
        try:
            root = bytes.fromhex(root.decode())
        except (ValueError, UnicodeDecodeError):
            pass
    elif m == "root-fold":
        f = fold(target, path, ht, secure)
        if f is not None:
            root = f
    elif m == "splice-path":
        o = list(alt.proof)
        c = b % (n + 1)
        path = path[:c] + [tuple(x) for x in o[c:]] if a % 2 else [tuple(x) for x in o]
    elif m == "splice-target":
        target = alt.target_key
    elif m == "splice-root":
        root = alt.trie_root
    elif m == "inner-path" and len(leaves) > 1:
        # the genuine path of an inner node, its children (or itself, unsecured) posing as the target
        lv = ref.mt_levels(leaves, ht, secure)
        l = 1 + a % (len(lv) - 1)
        i = (a // 7) % len(lv[l])
        path = []
        j = i
        for row in lv[l:-1]:
            sib = j ^ 1
            if sib < len(row):
                path.append((b"left" if sib < j else b"right", row[sib].hex().encode()))
            j //= 2
        kids = lv[l - 1][2 * i: 2 * i + 2]
        target = b"".join(kids) if (secure or b % 2) else lv[l][i]
        if not secure and b % 2:
            target = lv[l][i]
        root = lv[-1][0].hex().encode()
    elif m == "type":
        kind = [b"MPT-POI", b"MPT-POE", b"MT-POI"][a % 3]
    return target, root, path, kind
