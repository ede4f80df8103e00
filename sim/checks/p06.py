"""P06: proof records of Merkle trees survive transport unchanged."""
from .. import gen, ref
from ..kernel import short
from ..seams import CLOCK

RUNS = {"quick": 25000, "thorough": 200000}
RULE = ("Proofs of Merkle trees are sent in binary and (text keys) JSON form over a network that delays, duplicates, reorders "
        "and damages them while the clock jumps, to one receiver or several at once; decoded records are compared with the originals field by field and verified "
        "on trees holding the same leaves; damaged ones must not be accepted for a value outside the tree.")
REAL = ["pymt.proof", "pymt.mt", "pymt.merkletools", "rlp", "json"]
STUB = ["network", "clock", "thread scheduler"]
PROBES = ("rlp", "json", "damaged-raised", "damaged-decoded", "damaged-rejected", "clock-back", "empty-path", "relayed",
          "duplicate", "text-nonascii", "receivers-at-once")
HT = ["sha256", "sha256", "md5", "sha512", "sha3_256", "sha3_384"]
TEXT = ["a", "tierion", "bitcoin", "é", "日本", "\U0001f600", "", "null", "left", "{\"a\": 1}", "x" * 300, "\x00", "\\u0041", "\"",
        " a", "a ", "a\n", "\t", " ", "A", "e\u0301", "\u212b", "\ufeffa", "\r\n", "a\r", "\u2028", "\x7f", "\x85", "\u200ba", "%61", "a\\", "\\n",
        "ß", "\u0130", "0", "false", "None", "b'a'", "\ud7ff", "\U0010ffff"]


def plan(rng, i, tier):
    text = rng.random() < 0.5
    if text:
        vals = [t.encode() for t in rng.sample(TEXT, rng.randrange(1, 8))]
    else:
        vals = gen.values(rng, rng.choice([1, 2, 3, 6, 14]))
    vals = list(dict.fromkeys(vals))
    steps, nm = [], 0
    for _ in range(rng.choice([1, 2, 3, 5, 9, 17]) if i % 100 != 49 else rng.choice([33, 64, 65, 130] if i % 500 != 249 else [513, 700, 1025])):
        steps.append({"o": "put", "v": rng.randrange(len(vals))})
    for _ in range(rng.choice([4, 10, 20])):
        o = gen.pick(rng, {"put": 0.4, "send": 3, "deliver": 5, "clock": 1, "relay": 1})
        s = {"o": o}
        if o == "put":
            s["v"] = rng.randrange(len(vals))
        elif o == "send":
            s.update(i=rng.randrange(1 << 16), m=nm, json=text and rng.random() < 0.6)
            nm += 1
        elif o == "clock":
            s["d"] = rng.choice([-86400.0 * 400, -3600.0, -1.5, 0.25, 60.0, 86400.0, 3.2e7])
        else:
            s.update(m=rng.randrange(nm + 1), dt=round(rng.expovariate(1), 3))
            if o == "deliver" and rng.random() < 0.5:
                s["dmg"] = [[rng.choice(DMG), rng.randrange(1 << 20), rng.randrange(1 << 20)]
                            for _ in range(rng.choice([1, 1, 2]))]
        steps.append(s)
    plan = {"cfg": {"secure": rng.random() < 0.6, "ht": rng.choice(HT)}, "vals": gen.hexes(vals), "steps": steps}
    if nm > 1 and rng.random() < 0.12:
        # several receivers and relays at once, preempted at any executed line
        steps.insert(rng.randrange(len(steps) // 2, len(steps) + 1), {"o": "batch", "ms": [
            [[rng.randrange(nm), rng.random() < 0.3] for _ in range(rng.choice([1, 2, 3]))] for _ in range(rng.choice([2, 2, 3]))]})
        plan["sched"] = {"mode": "seed", "seed": rng.randrange(1 << 40), "lines": True}
        if rng.random() < 0.5:
            plan["sched"].update(points=rng.choice([1, 2, 4, 8]), span=rng.choice([30, 100, 400]))
        else:
            plan["sched"]["p"] = rng.choice([0.02, 0.1, 0.4])
    return gen.times(rng, plan)


DMG = ["flip", "flip", "flip", "trunc", "ext", "drop", "dupbytes", "splice", "field"]


def damage(x, d, others):
    kind, a, b = d
    x = bytearray(x)
    if kind == "flip" and x:
        x[(a // 8) % len(x)] ^= 1 << (a % 8)
    elif kind == "trunc":
        x = x[: a % (len(x) + 1)]
    elif kind == "ext":
        x += bytes([b % 256]) * (1 + a % 4)
    elif kind == "drop" and x:
        i = a % len(x)
        del x[i: i + 1 + b % 8]
    elif kind == "dupbytes" and x:
        i = a % len(x)
        x[i:i] = x[i: i + 1 + b % 40]
    elif kind == "splice" and others:
        o = others[a % len(others)]
        c = b % (len(x) + 1)
        x = x[:c] + bytearray(o[c:])
    elif kind == "field" and x:
        # whole fields change places: rebuild the record from its parts
        try:
            parts = ref.rlp_dec(bytes(x))
            o = ref.rlp_dec(others[a % len(others)]) if others else parts
            parts[b % len(parts)] = o[(b // 7) % len(o)] if a % 2 else o[b % len(parts)]
            x = bytearray(ref.rlp_enc(parts))
        except (ref.Bad, IndexError, TypeError, AttributeError):
            pass
    return bytes(x)


def fields(p):
    return {"type": p.type, "timestamp": p.timestamp, "target_key": p.target_key, "trie_root": p.trie_root, "proof": p.proof}


def run(sim, plan):
    vals = gen.unhex(plan["vals"])
    ht, secure = plan["cfg"]["ht"], plan["cfg"]["secure"]
    P = sim.P
    tree = P.MerkleTree(secure=secure, hash_type=ht)
    twin = P.MerkleTree(secure=secure, hash_type=ht)
    leaves = []
    msgs = {}
    last = CLOCK.now

    def arrived(m, out):
        """An undamaged record was decoded."""
        if not out.ok:
            sim.fail("not-decodable", "an undamaged %s record %r" % ("JSON" if m["json"] else "binary", out))
        p = out.value
        f = fields(p)
        for name in m["f"]:
            if f[name] != m["f"][name]:
                sim.fail("field-changed", "after transport field %s is %s, sent was %s" % (
                    name, short(f[name]), short(m["f"][name])))
        if not (p == m["p"]) or p != m["p"]:
            sim.fail("not-equal", "the decoded record does not equal the original")
        if fields(m["p"]) != m["f"]:
            sim.fail("original-changed", "the sender's record changed")
        if m["leaves"] == leaves:
            r = sim.call(twin.verify_proof_of_inclusion, p)
            if not r.ok or r.value is not True:
                sim.fail("honest-rejected", "the decoded proof of leaf %s is not accepted: %r" % (short(p.target_key), r))

    def receiver(ms):
        def body():
            for j, again in ms:
                m = msgs[sorted(msgs)[j % len(msgs)]]
                raw = m["raw"]
                if again:
                    p = decode(sim, P, raw, m["json"])
                    if not p.ok:
                        sim.fail("not-decodable", "an undamaged %s record %r" % ("JSON" if m["json"] else "binary", p))
                    out = sim.call(p.value.encode_json if m["json"] else p.value.encode_rlp)
                    if not out.ok:
                        sim.fail("not-encodable", "a decoded record %r" % out)
                    raw = out.value.encode() if m["json"] else out.value
                out = decode(sim, P, raw, m["json"])
                sim.log("arrives", str(j), out.ok, out.err or "")
                arrived(m, out)

        return body

    for s in plan["steps"]:
        o = s["o"]
        sim.ops[o] += 1
        if s.get("dt"):
            CLOCK.advance(s["dt"])
        if o == "put":
            tree.put(vals[s["v"]])
            twin.put(vals[s["v"]])
            leaves.append(vals[s["v"]])
        elif o == "clock":
            CLOCK.jump(s["d"])
            sim.fault("clock-jump")
            if CLOCK.now < 86400:
                CLOCK.set(86400.0)
            if CLOCK.now < last:
                sim.probe("clock-back")
            last = CLOCK.now
        elif o == "send":
            if not leaves:
                continue
            tree.make_tree()
            leaf = leaves[s["i"] % len(leaves)]
            p = tree.get_proof_of_inclusion(leaf)
            out = sim.call(p.encode_json if s["json"] else p.encode_rlp)
            if not out.ok:
                sim.fail("not-encodable", "the %s form of the proof of leaf %s (path of %d) %r" % (
                    "JSON" if s["json"] else "binary", short(leaf), len(p.proof), out))
            raw = out.value.encode() if s["json"] else out.value
            msgs[s["m"]] = {"p": p, "f": fields(p), "raw": raw, "json": s["json"], "leaves": list(leaves), "n": 0}
            if not p.proof:
                sim.probe("empty-path")
            if s["json"]:
                sim.probe("json")
                if any(c > 127 for c in leaf):
                    sim.probe("text-nonascii")
            else:
                sim.probe("rlp")
            sim.log("send", leaf, p.timestamp, str(len(raw)))
        elif o == "relay":
            # a relay decodes and encodes again; the record stays the same
            if not msgs:
                continue
            m = msgs[sorted(msgs)[s["m"] % len(msgs)]]
            p = decode(sim, P, m["raw"], m["json"])
            if not p.ok:
                sim.fail("not-decodable", "an undamaged %s record %r" % ("JSON" if m["json"] else "binary", p))
            out = sim.call(p.value.encode_json if m["json"] else p.value.encode_rlp)
            if not out.ok:
                sim.fail("not-encodable", "a decoded record %r" % out)
            m["raw"] = out.value.encode() if m["json"] else out.value
            sim.probe("relayed")
        elif o == "batch":
            if not msgs:
                continue
            if leaves:
                # nobody builds a tree while others verify on it
                twin.make_tree()
            sim.run_tasks([receiver(ms) for ms in s["ms"]])
            sim.probe("receivers-at-once")
        elif o == "deliver":
            if not msgs:
                continue
            i = sorted(msgs)[s["m"] % len(msgs)]
            m = msgs[i]
            sim.sig.update(b"d%d;" % i)
            if m["n"]:
                sim.fault("net-duplicate")
                sim.probe("duplicate")
            m["n"] += 1
            raw = m["raw"]
            for d in s.get("dmg", ()):
                raw = damage(raw, d, [x["raw"] for j, x in sorted(msgs.items()) if x["json"] == m["json"]])
            dmg = raw != m["raw"]
            if dmg:
                sim.fault("net-damage")
            out = decode(sim, P, raw, m["json"])
            sim.log("deliver", str(i), "damaged" if dmg else "intact", out.ok, out.err or "")
            if not dmg:
                arrived(m, out)
            elif not out.ok:
                sim.probe("damaged-raised")
            else:
                p = out.value
                sim.probe("damaged-decoded")
                r = sim.call(twin.verify_proof_of_inclusion, p)
                if r.ok and r.value:
                    if p.target_key not in leaves:
                        sim.fail("damaged-accepted", "a damaged record is accepted for %s, which is not in the tree" % short(p.target_key))
                else:
                    sim.probe("damaged-rejected")


def decode(sim, P, raw, js):
    if js:
        return sim.call(lambda: P.Proof.decode_json(raw.decode()))
    return sim.call(P.Proof.decode_rlp, raw)
