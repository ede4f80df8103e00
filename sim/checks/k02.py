"""K02: a signature is accepted exactly for the signed bytes and the signing key."""
from .. import gen, keyworld, seams
from ..kernel import short
from ..seams import CLOCK, RNG
from ..storage import Faults
from ..world import sim_keys

RUNS = {"quick": 3300, "thorough": 40000}
RULE = ("Parties sign and check over a network that delays, duplicates, damages and recombines messages, signatures and public keys, "
        "while signers are saved, restarted and reloaded, threads share key pairs, the clock jumps and the random source fails; genuine "
        "triples are accepted by every party, any other triple is not.")
REAL = ["pymt.keypairs", "pymt.utils", "Crypto"]
STUB = ["network", "random source (seeded)", "clock", "thread scheduler", "parties' keys (fixed 1024-bit keys)"]
ASSUME = ["PKCS#1 v1.5 signatures with SHA-256 are unforgeable"]
PROBES = ("accepted", "own-key", "message-altered", "signature-altered", "key-altered", "other-key", "other-signature", "reloaded",
          "restart", "after-clock-jump", "threads", "rng-failed", "aborted", "auth", "empty", "new-key")
MMUT = ["bit", "trunc", "ext", "other", "empty", "prefix", "dup"]
SMUT = ["bit", "bit", "trunc", "ext", "zero", "empty", "other", "other", "lead", "addn", "mix", "reverse"]
KMUT = ["other", "other", "bit", "pem", "priv", "trunc", "empty"]


def plan(rng, i, tier):
    np = rng.choice([2, 3, 4])
    off = rng.randrange(10)
    parties = [{"key": (off + j) % 10, "cls": rng.choice(["RsaKeyPair", "RsaAuthKeyPair"])} for j in range(np)]
    vals = [b""] + gen.values(rng, 6, big=rng.random() < 0.1)
    if rng.random() < 0.1:
        vals += [gen.sized(rng)] * 2
    elif i % 29 == 17:
        vals[1:3] = [gen.huge(rng)] * 2
    steps, nm = [], 0
    regen = 0.6 if rng.random() < 0.06 else 0  # (making keys takes long)
    fp = rng.choice([0, 0, 0.25])
    for _ in range(rng.choice([8, 16, 28])):
        o = gen.pick(rng, {"sign": 3, "check": 9, "restart": 0.5, "reload": 0.12, "clock": 0.5, "threads": 0.4, "newkey": regen})
        if nm == 0:
            o = "sign"
        s = {"o": o}
        if o == "sign":
            s.update(m=nm, a=rng.randrange(np), v=rng.randrange(len(vals)))
            nm += 1
        elif o == "check":
            s.update(m=rng.randrange(nm), by=rng.randrange(np), own=rng.random() < 0.3, dt=round(rng.expovariate(0.1), 2))
            r = rng.random()
            if r < 0.8:
                s["x"] = [[rng.choice("mskms"), rng.randrange(12), rng.randrange(1 << 24), rng.randrange(1 << 24)]
                          for _ in range(rng.choice([1, 1, 1, 2]))]
        elif o in ("restart", "reload", "newkey"):
            s["p"] = rng.randrange(np)
        elif o == "clock":
            s["d"] = rng.choice([-1e8, -3600.0, 3600.0, 1e9])
        else:
            s["ops"] = [[[rng.choice(["sign", "check"]), rng.randrange(np), rng.randrange(len(vals)), rng.randrange(nm)]
                         for _ in range(rng.choice([1, 2, 3]))] for _ in range(rng.choice([2, 3]))]
        if o in ("sign", "check") and fp and rng.random() < fp:
            if rng.random() < 0.7:
                s["f"] = [gen.line_fault(rng, 12)]
            else:
                s["rng"] = rng.randrange(3)
        steps.append(s)
    return gen.times(rng, {"cfg": {"parties": parties}, "keys": [], "vals": gen.hexes(vals), "steps": steps,
                           "sched": {"mode": "seed", "seed": rng.randrange(1 << 40), "lines": True, "p": rng.choice([0.1, 0.3, 0.6])}})


def alter(kind, n, a, b, x, others):
    x = bytearray(x)
    k = kind[n % len(kind)]
    if k == "bit" and x:
        x[(a // 8) % len(x)] ^= 1 << (a % 8)
    elif k == "trunc":
        x = x[: a % len(x)] if x else x
    elif k == "ext":
        x += bytes([b % 256]) * (1 + a % 3)
    elif k == "other":
        x = bytearray(others[a % len(others)])
    elif k == "empty":
        x = bytearray()
    elif k == "prefix":
        x = bytearray(b"\x00") + x
    elif k == "dup":
        x = x + x
    elif k == "zero":
        x = bytearray(len(x))
    elif k == "lead" and x:
        x = x[1:] if a % 2 else bytearray(b"\x00") + x
    elif k == "addn":
        x = bytearray((int.from_bytes(x, "big") + keyworld.rsa(b).n).to_bytes(max(len(x), 128) + 1, "big"))
        x = x[1:] if x[:1] == b"\x00" else x
    elif k == "mix":
        o = others[a % len(others)]
        c = b % (len(x) + 1)
        x = x[:c] + bytearray(o[c:])
    elif k == "reverse":
        x.reverse()
    elif k == "pem":
        s = bytes(x).split(b"\n")
        s = [[b"-----BEGIN RSA PUBLIC KEY-----"] + s[1:], s[:-1], s + [b""], [s[0]] + s[1:-1][::-1] + [s[-1]]][a % 4]
        x = bytearray(b"\n".join(s))
    elif k == "priv":
        x = bytearray(keyworld.rsa(a).export_key())
    return bytes(x)


def run(sim, plan):
    _, vals = sim_keys(plan)
    parties = plan["cfg"]["parties"]
    P = [sim.P]

    saved = {}  # party -> its saved form, once its key was replaced

    def make(j):
        if j in saved:
            return getattr(P[0], parties[j]["cls"]).from_key_string(saved[j], "pass %d" % j)
        return keyworld.party(P[0], parties[j]["key"], parties[j]["cls"])

    kp = [make(j) for j in range(len(parties))]
    pubs = [keyworld.pub(p["key"]) for p in parties]
    msgs = {}
    jumped = [False]

    def sign(n, a, data, fault=None, rng=None):
        f0 = sim.fired()
        if rng is not None:
            RNG.arm(rng, 1)
        with Faults(sim, {}, fault):
            out = sim.call(kp[a].sign, data)
        RNG.disarm()
        hit = sim.fired() > f0
        if hit:
            sim.probe("rng-failed" if rng is not None else "aborted")
            if rng is not None:
                sim.fault("random-source-failure")
        sim.log("sign", str(a), str(len(data)), out.ok, out.err or out.value)
        if not out.ok:
            if not hit:
                sim.fail("sign", "%s cannot sign %d bytes: %r" % (parties[a]["cls"], len(data), out))
            return
        if not isinstance(out.value, bytes):
            sim.fail("sign", "a signature is %s" % short(out.value))
        msgs[n] = (data, out.value, pubs[a])
        if not data:
            sim.probe("empty")
        if "Auth" in parties[a]["cls"]:
            sim.probe("auth")

    def check(s, data, sig, key, by, fault=None, rng=None, how=""):
        """Party `by` checks; key None: its own."""
        kb = pubs[by] if key is None else key
        f0 = sim.fired()
        if rng is not None:
            RNG.arm(rng, 1)
        with Faults(sim, {}, fault):
            if key is None:
                out = sim.call(kp[by].signature_valid, data, sig)
            else:
                out = sim.call(kp[by].signature_valid, data, sig, key)
        RNG.disarm()
        hit = sim.fired() > f0
        sim.log("check", str(by), out.ok, out.err or out.value, data[:20], sig[:20])
        exact = any(x[0] == data and x[1] == sig and x[2] == kb for x in msgs.values())
        genuine = exact or any(x[0] == data and x[1] == sig and keyworld.same_public(kb, x[2]) for x in msgs.values())
        if exact:
            if not out.ok and hit:
                return
            if not out.ok or out.value is not True:
                sim.fail("rejected", "%s does not accept a genuine signature of %d bytes%s: %r" % (
                    parties[by]["cls"], len(data), " with its own key" if key is None else "", out))
            sim.probe("accepted")
            if key is None:
                sim.probe("own-key")
            if jumped[0]:
                sim.probe("after-clock-jump")
        elif not genuine and out.ok and out.value:
            sim.fail("accepted", "%s accepts a signature that was not made for these bytes with this key (%s)" % (parties[by]["cls"], how or "-"))

    n2 = 1 << 20
    for s in plan["steps"]:
        o = s["o"]
        sim.ops[o] += 1
        if s.get("dt"):
            CLOCK.advance(s["dt"])
        if o == "sign":
            sign(s["m"], s["a"], vals[s["v"]], s.get("f"), s.get("rng"))
        elif o == "restart":
            P[0] = seams.load_pymt()
            kp[s["p"]] = make(s["p"])
            sim.probe("restart")
            sim.fault("restart")
        elif o == "reload":
            j = s["p"]
            text = kp[j].to_key_string("pass %d" % j)
            P[0] = seams.load_pymt()
            kp[j] = getattr(P[0], parties[j]["cls"]).from_key_string(text, "pass %d" % j)
            sim.probe("reloaded")
            sim.fault("restart")
        elif o == "newkey":
            # the same object gets a new key: from now on it signs and checks with that one
            j = s["p"]
            out = sim.call(kp[j].generate_keypair, 1024)
            if not out.ok:
                sim.fail("new-key", "%s cannot make a new key: %r" % (parties[j]["cls"], out))
            saved[j] = kp[j].to_key_string("pass %d" % j)
            pk = sim.call(lambda: kp[j].public_key)
            if not pk.ok or pk.value in pubs:
                sim.fail("new-key", "after a new key was made the public key is %s" % ("an old one" if pk.ok else repr(pk)))
            pubs[j] = pk.value
            text = sim.call(lambda: kp[j].public_key_string)
            if not text.ok or text.value.encode() != pubs[j]:
                sim.fail("new-key", "after a new key was made the public key is given as %r, as text %r" % (pk, text))
            sim.probe("new-key")
            sim.log("newkey", str(j), pubs[j])
        elif o == "clock":
            CLOCK.set(max(0.0, CLOCK.now + s["d"]))
            sim.fault("clock-jump")
            jumped[0] = True
        elif o == "check" and s["m"] in msgs:
            data, sig, kk = msgs[s["m"]]
            key = kk
            how = []
            for w, n, a, b in s.get("x", ()):
                if w == "m":
                    y, kind = alter(MMUT, n, a, b, data, [msgs[q][0] for q in sorted(msgs)]), MMUT
                    if y != data:
                        sim.probe("message-altered")
                    data = y
                elif w == "s":
                    y, kind = alter(SMUT, n, a, b, sig, [msgs[q][1] for q in sorted(msgs)]), SMUT
                    if y != sig:
                        sim.probe("signature-altered")
                        if SMUT[n % len(SMUT)] == "other":
                            sim.probe("other-signature")
                    sig = y
                else:
                    y, kind = alter(KMUT, n, a, b, key, [keyworld.pub(q) for q in range(10)] + pubs), KMUT
                    if y != key:
                        sim.probe("other-key" if KMUT[n % len(KMUT)] == "other" else "key-altered")
                    key = y
                how.append(w + "-" + kind[n % len(kind)])
                sim.fault("net-" + how[-1])
            if s["own"] and not any(h[0] == "k" for h in how):
                key = None  # whoever checks uses its own key
            check(s, data, sig, key, s["by"], s.get("f"), s.get("rng"), "+".join(how))
        elif o == "threads" and msgs:
            known = sorted(msgs)
            n2 += 100

            def task(t, ops, base):
                def body():
                    for q, (what, a, v, n) in enumerate(ops):
                        if what == "sign":
                            sign(base + t * 10 + q, a, vals[v])
                        else:
                            d, g, k = msgs[known[n % len(known)]]
                            bad = n % 3 == 0
                            check({}, d + b"!" if bad else d, g, k, a, how="message altered, in a thread")
                return body

            sim.run_tasks([task(t, ops, n2) for t, ops in enumerate(s["ops"])])
            sim.probe("threads")
            for n in sorted(x for x in msgs if x >= n2):
                d, g, k = msgs[n]
                check({}, d, g, k, n % len(parties))
