"""K01: encrypted messages are delivered exactly or refused."""
import json

from Crypto.Cipher import AES, PKCS1_OAEP

from .. import gen, keyworld, seams
from ..kernel import SimCrash, short
from ..seams import CLOCK, RNG
from ..storage import Faults
from ..world import sim_keys
from .k02 import KMUT, alter

RUNS = {"quick": 2800, "thorough": 30000}
RULE = ("Parties with general and encryption-only key pairs send messages over a network that delays, duplicates, reorders, misdelivers, "
        "damages and recombines them, while parties restart, threads share key pairs, the clock jumps and the random source fails; a "
        "message decrypts to exactly what its sender encrypted for that recipient, anything else is refused.")
REAL = ["pymt.keypairs", "pymt.utils", "Crypto"]
STUB = ["network", "random source (seeded)", "clock", "thread scheduler", "parties' keys (fixed 1024-bit keys)"]
ASSUME = ["RSA-OAEP, PKCS#1 v1.5 signatures and AES-EAX are secure", "adversary without its own key, except in the recorded finding"]
PROBES = ("delivered", "delivered-enc", "delivered-late", "duplicate", "wrong-recipient", "wrong-sender", "damaged-refused",
          "damaged-equivalent", "spliced-refused", "restart", "rng-failed", "aborted", "empty", "threads", "self-message", "sender-key-damaged",
          "recipient-key-damaged")
FIELDS = ["enc_session_key", "nonce", "tag", "ciphertext", "signature"]
DMG = ["bit", "bit", "byte", "trunc", "ext", "drop", "splice", "fbit", "fbit", "fbit", "ftrunc", "fext", "fzero", "fswap", "fswap", "fswap",
       "fswap2", "fdrop", "fempty", "fmix", "case", "space", "permute", "resign", "forward"]


def plan(rng, i, tier):
    np = rng.choice([2, 3, 4])
    parties = [{"key": rng.randrange(8), "cls": rng.choice(["RsaKeyPair", "RsaKeyPair", "RsaEncKeyPair"])} for _ in range(np)]
    for j, p in enumerate(parties):
        p["key"] = (p["key"] // 4 * 4 + j) % 8
    vals = [b"", b"\x00"] + gen.values(rng, 6, big=rng.random() < 0.05)
    if rng.random() < 0.1:
        vals += [gen.sized(rng)] * 2
    elif i % 41 == 17:
        vals[1:3] = [gen.huge(rng)] * 2
    steps, nm = [], 0
    fp = rng.choice([0, 0, 0.25])
    for _ in range(rng.choice([6, 12, 20])):
        o = gen.pick(rng, {"send": 3, "deliver": 7, "restart": 0.4, "clock": 0.5, "threads": 0.5})
        if nm == 0:
            o = "send"
        s = {"o": o}
        if o == "send":
            s.update(m=nm, a=rng.randrange(np), b=rng.randrange(np), v=rng.randrange(len(vals)) if rng.random() < 0.9 else 0)
            if rng.random() < 0.12:
                s["key"] = [rng.randrange(1, len(KMUT)), rng.randrange(1 << 24), rng.randrange(1 << 24)]
            nm += 1
        elif o == "deliver":
            s.update(m=rng.randrange(nm), dt=round(rng.expovariate(0.1), 2))
            r = rng.random()
            if r < 0.15:
                s["to"] = rng.randrange(np)
            elif r < 0.3:
                s["frm"] = rng.randrange(np)
            elif r < 0.37:
                s["key"] = [rng.randrange(1, len(KMUT)), rng.randrange(1 << 24), rng.randrange(1 << 24)]
            elif r < 0.78:
                s["dmg"] = [[rng.choice(DMG), rng.randrange(1 << 24), rng.randrange(1 << 24)] for _ in range(rng.choice([1, 1, 1, 2, 3]))]
        elif o == "restart":
            s["p"] = rng.randrange(np)
        elif o == "clock":
            s["d"] = rng.choice([-1e8, -3600.0, 3600.0, 1e9])
        else:
            s["ops"] = [[[rng.choice(["send", "deliver"]), rng.randrange(np), rng.randrange(np), rng.randrange(len(vals)), rng.randrange(nm)]
                         for _ in range(rng.choice([1, 2]))] for _ in range(rng.choice([2, 3]))]
        if o in ("send", "deliver") and fp and rng.random() < fp:
            if rng.random() < 0.6:
                s["f"] = [gen.line_fault(rng, 30)]
            else:
                s["rng"] = rng.randrange(4)
        steps.append(s)
    return gen.times(rng, {"cfg": {"parties": parties}, "keys": [], "vals": gen.hexes(vals), "steps": steps,
                           "sched": {"mode": "seed", "seed": rng.randrange(1 << 40), "lines": True, "p": rng.choice([0.05, 0.2, 0.5])}})


def fields(raw):
    """The values a message carries, whatever its spelling; None if it is not in the documented form."""
    try:
        d = json.loads(raw.decode("utf-8"))
        return tuple(bytes.fromhex(d[f]) for f in FIELDS)
    except (ValueError, KeyError, TypeError, AttributeError, UnicodeDecodeError, RecursionError):
        return None


def key_for(k, f):
    """Whether the wrapped session key is one for key pair k, and that of the message."""
    with RNG.aside():
        try:
            sk = PKCS1_OAEP.new(keyworld.rsa(k)).decrypt(f[0])
            AES.new(sk, AES.MODE_EAX, f[1]).decrypt_and_verify(f[3], f[2])
        except (ValueError, TypeError):
            return False
    return True


def put(v):
    return json.dumps({f: x.hex() for f, x in zip(FIELDS, v)}).encode()


def damage(raw, d, msgs, w):
    kind, a, b = d
    x = bytearray(raw)
    o = msgs[sorted(msgs)[b % len(msgs)]]["raw"]
    if kind == "bit" and x:
        x[(a // 8) % len(x)] ^= 1 << (a % 8)
    elif kind == "byte" and x:
        x[a % len(x)] = b % 256
    elif kind == "trunc":
        x = x[: a % (len(x) + 1)]
    elif kind == "ext":
        x += bytes([b % 256]) * (1 + a % 3)
    elif kind == "drop" and x:
        i = a % len(x)
        del x[i: i + 1 + b % 8]
    elif kind == "splice":
        c = a % (len(x) + 1)
        x = x[:c] + bytearray(o[c:])
    elif kind == "case":
        x = bytearray(bytes(x).upper() if a % 2 else bytes(x).replace(b'": "', b'":"'))
        if a % 2:
            for f in FIELDS:
                x = bytearray(bytes(x).replace(f.upper().encode(), f.encode()))
    elif kind == "space":
        x = bytearray(b" ") * (a % 3) + x + bytearray(b"\n")
    else:
        v, ov = fields(bytes(x)), fields(o)
        if v is None or ov is None:
            return bytes(x)
        v = list(v)
        i = a % 5
        if kind == "fbit" and v[i]:
            y = bytearray(v[i])
            y[(b // 8) % len(y)] ^= 1 << (b % 8)
            v[i] = bytes(y)
        elif kind == "ftrunc" and v[i]:
            v[i] = v[i][: b % len(v[i])]
        elif kind == "fext":
            v[i] = v[i] + b"\x00" * (1 + b % 16) if b % 2 else b"\x00" + v[i]
        elif kind == "fzero":
            v[i] = bytes(len(v[i]))
        elif kind == "fswap":
            v[i] = ov[i]
        elif kind == "fswap2":
            v[i], v[(i + 1) % 5] = ov[i], ov[(i + 1) % 5]
        elif kind == "fempty":
            v[i] = b""
        elif kind == "fmix":
            c = a % (1 + min(len(v[i]), len(ov[i])))
            v[i] = v[i][:c] + ov[i][c:]
        elif kind == "permute":
            j = b % 5
            v[i], v[j] = v[j], v[i]
        elif kind == "fdrop":
            y = json.loads(bytes(x))
            y.pop(FIELDS[i])
            return json.dumps(y).encode()
        elif kind == "resign":
            # another party puts its own signature on a captured message
            with RNG.aside():
                out = w.sim.call(w.ref_party(b).sign, v[3])
            v[4] = out.value if out.ok else v[4]
        elif kind == "forward":
            # a recipient passes the session key on to somebody else, as if the sender had
            for k in w.keysets:
                with RNG.aside():
                    try:
                        sk = PKCS1_OAEP.new(keyworld.rsa(k)).decrypt(v[0])
                    except (ValueError, TypeError):
                        continue
                    v[0] = PKCS1_OAEP.new(keyworld.rsa(w.keysets[b % len(w.keysets)])).encrypt(sk)
                break
        return put(v)
    return bytes(x)


class W:
    def __init__(self, sim, plan):
        self.sim = sim
        self.P = sim.P
        self.parties = plan["cfg"]["parties"]
        self.keysets = [p["key"] for p in self.parties]
        self.kp = [self.make(j) for j in range(len(self.parties))]

    def make(self, j):
        p = self.parties[j]
        return keyworld.party(self.P, p["key"], p["cls"])

    def ref_party(self, b):
        return keyworld.party(self.P, self.keysets[b % len(self.keysets)])


def run(sim, plan):
    _, vals = sim_keys(plan)
    w = W(sim, plan)
    msgs = {}
    extra = [1 << 20]

    def send(n, a, b, data, fault=None, rng=None, key=None):
        ka, kb = w.parties[a]["key"], w.parties[b]["key"]
        f0 = sim.fired()
        pk = w.kp[b].public_key
        if key is not None:
            bad = alter(KMUT, key[0], key[1], key[2], pk, [keyworld.pub(q) for q in range(10)])
            if not keyworld.same_public(bad, pk):
                sim.fault("net-recipient-key-" + KMUT[key[0]])
                sim.probe("recipient-key-damaged")
                out = sim.call(w.kp[a].encrypt, data, bad)
                sim.log("send-damaged", str(a), str(b), out.ok, out.err or "")
                for j in range(len(w.parties)) if out.ok else ():
                    if keyworld.same_public(bad, keyworld.pub(w.parties[j]["key"])):
                        continue
                    r = sim.call(w.kp[j].decrypt, out.value, keyworld.pub(ka))
                    if r.ok:
                        sim.fail("misdirected", "%s encrypts %d bytes for a recipient key damaged by %s and party %d can decrypt them" % (
                            w.parties[a]["cls"], len(data), KMUT[key[0]], j))
                return
        if rng is not None:
            RNG.arm(rng, 1)
        with Faults(sim, {}, fault):
            out = sim.call(w.kp[a].encrypt, data, pk)
        RNG.disarm()
        hit = sim.fired() > f0
        if hit:
            sim.probe("rng-failed" if rng is not None else "aborted")
            if rng is not None:
                sim.fault("random-source-failure")
        sim.log("send", str(a), str(b), str(len(data)), out.ok, out.err or out.value)
        if not out.ok:
            if not hit:
                sim.fail("encrypt", "%s cannot encrypt %d bytes for another %s: %r" % (
                    w.parties[a]["cls"], len(data), w.parties[b]["cls"], out))
            return
        if hit and rng is not None:
            sim.fail("rng-ignored", "encryption succeeded although the random source failed")
        if not isinstance(out.value, bytes):
            sim.fail("encrypt", "an encrypted message is %s" % short(out.value))
        if data and len(data) > 12 and data in out.value:
            sim.fail("plain", "the encrypted message contains the plain data")
        msgs[n] = {"raw": out.value, "a": ka, "b": kb, "data": data, "n": 0, "f": fields(out.value), "cls": (w.parties[a]["cls"], w.parties[b]["cls"])}
        if not data:
            sim.probe("empty")
        if ka == kb:
            sim.probe("self-message")

    def deliver(s, m, r, c, wire, fault=None, rng=None, key=None):
        """Party r gets `wire` as a message from party c."""
        kr, kc = w.parties[r]["key"], w.parties[c]["key"]
        f0 = sim.fired()
        if key is not None:
            bad = alter(KMUT, key[0], key[1], key[2], keyworld.pub(kc), [keyworld.pub(q) for q in range(10)])
            if not keyworld.same_public(bad, keyworld.pub(kc)):
                sim.fault("net-sender-key-" + KMUT[key[0]])
                sim.probe("sender-key-damaged")
                out = sim.call(w.kp[r].decrypt, wire, bad)
                sim.log("deliver-badkey", str(r), out.ok, out.err or "")
                if out.ok and keyworld.same_public(bad, keyworld.pub(m["a"])):
                    return
                if out.ok:
                    sim.fail("accepted", "%s accepts a message with the sender's public key damaged by %s" % (
                        w.parties[r]["cls"], KMUT[key[0]]))
                return
        if rng is not None:
            RNG.arm(rng, 1)
        with Faults(sim, {}, fault):
            out = sim.call(w.kp[r].decrypt, wire, keyworld.pub(kc))
        RNG.disarm()
        hit = sim.fired() > f0
        sim.log("deliver", str(r), str(c), out.ok, out.err or out.value)
        pristine = wire == m["raw"] and kr == m["b"] and kc == m["a"]
        if pristine:
            if not out.ok:
                if not hit:
                    sim.fail("undelivered", "%s cannot decrypt the unaltered message of a %s (%d bytes): %r" % (
                        w.parties[r]["cls"], m["cls"][0], len(m["data"]), out))
                sim.probe("aborted")
            elif out.value != m["data"]:
                sim.fail("different", "a message of %s decrypts to %s" % (short(m["data"]), short(out.value)))
            else:
                sim.probe("delivered")
                if "Enc" in w.parties[r]["cls"] or "Enc" in m["cls"][0]:
                    sim.probe("delivered-enc")
            return
        if not out.ok:
            sim.probe("damaged-refused")
            if any(d[0].startswith("fswap") or d[0] == "splice" for d in s.get("dmg", ())):
                sim.probe("spliced-refused")
            return
        f = fields(wire)
        if f is not None:
            same = [x for x in msgs.values() if x["f"] == f and x["b"] == kr and x["a"] == kc]
        else:
            same = [x for x in msgs.values() if x["f"] is None and x["b"] == kr and x["a"] == kc]
        if any(x["data"] == out.value for x in same):
            sim.probe("damaged-equivalent")  # another spelling of a genuine message from that sender
            return
        how = "+".join(d[0] for d in s.get("dmg", ())) or ("misdelivered" if kr != m["b"] else "misattributed")
        if f is not None:
            whole = [x for x in msgs.values() if x["f"] is not None and x["f"][1:4] == f[1:4] and x["data"] == out.value]
            if whole and keyworld_valid(kc, f[3], f[4]) and key_for(kr, f) and (
                    not f[3] or any(d[0] in ("resign", "forward") for d in s.get("dmg", ()))
                    # the very same (short) ciphertext signed in another genuine message
                    or any(x["f"] is not None and x["a"] == kc and x["f"][3:] == f[3:] for x in msgs.values())):
                sim.finding("F21", "the signature covers the ciphertext only: a message whose nonce, tag and ciphertext are those of a genuine "
                            "one is accepted with another sender's signature of that ciphertext or with its session key re-encrypted by an insider")
                return
        if same and f is None:
            return
        sim.fail("accepted", "%s accepts a message altered by %s (from party %d to %d, taken as from %d by %d) and returns %s" % (
            w.parties[r]["cls"], how, m["a"], m["b"], kc, kr, short(out.value)))

    for s in plan["steps"]:
        o = s["o"]
        sim.ops[o] += 1
        if s.get("dt"):
            CLOCK.advance(s["dt"])
        if o == "send":
            send(s["m"], s["a"], s["b"], vals[s["v"]], s.get("f"), s.get("rng"), s.get("key"))
        elif o == "restart":
            w.P = seams.load_pymt()
            w.kp[s["p"]] = w.make(s["p"])
            sim.probe("restart")
            sim.fault("restart")
        elif o == "clock":
            CLOCK.set(max(0.0, CLOCK.now + s["d"]))
            sim.fault("clock-jump")
        elif o == "deliver" and s["m"] in msgs:
            m = msgs[s["m"]]
            idx = {p["key"]: j for j, p in enumerate(w.parties)}
            r, c = s.get("to", idx[m["b"]]), s.get("frm", idx[m["a"]])
            if "to" in s and w.parties[r]["key"] != m["b"]:
                sim.fault("net-misdelivered")
                sim.probe("wrong-recipient")
            if "frm" in s and w.parties[c]["key"] != m["a"]:
                sim.fault("net-misattributed")
                sim.probe("wrong-sender")
            wire = m["raw"]
            for d in s.get("dmg", ()):
                wire = damage(wire, d, msgs, w)
                if d[0] == "resign":
                    c = d[2] % len(w.parties)
                elif d[0] == "forward":
                    r = d[2] % len(w.parties)
                elif d[0] in ("fswap", "fswap2") and d[1] % 3 == 0:
                    c = idx[msgs[sorted(msgs)[d[2] % len(msgs)]]["a"]]
                if wire != m["raw"]:
                    sim.fault("net-" + d[0])
            if m["n"]:
                sim.fault("net-duplicate")
                sim.probe("duplicate")
            m["n"] += 1
            if len(msgs) > 1 and s["m"] != max(msgs):
                sim.probe("delivered-late")
            deliver(s, m, r, c, wire, s.get("f"), s.get("rng"), s.get("key"))
        elif o == "threads" and msgs:
            known = sorted(msgs)
            extra[0] += 100

            def task(t, ops, base):
                def body():
                    for q, (what, a, b, v, n) in enumerate(ops):
                        if what == "send":
                            send(base + t * 10 + q, a, b, vals[v])
                        else:
                            m = msgs[known[n % len(known)]]
                            idx = {p["key"]: j for j, p in enumerate(w.parties)}
                            deliver({}, m, idx[m["b"]], idx[m["a"]], m["raw"])
                return body

            sim.run_tasks([task(t, ops, extra[0]) for t, ops in enumerate(s["ops"])])
            sim.probe("threads")
            for n in sorted(x for x in msgs if x >= extra[0]):
                m = msgs[n]
                idx = {p["key"]: j for j, p in enumerate(w.parties)}
                deliver({}, m, idx[m["b"]], idx[m["a"]], m["raw"])


def keyworld_valid(k, data, sig):
    from Crypto.Hash import SHA256
    from Crypto.Signature import pkcs1_15

    try:
        pkcs1_15.new(keyworld.rsa(k)).verify(SHA256.new(data), sig)
        return True
    except (ValueError, TypeError):
        return False
