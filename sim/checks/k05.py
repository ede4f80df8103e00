"""K05: every encryption draws fresh randomness or fails."""
import json
import os
import random
import signal
import sys

from .. import gen, keyworld, seams
from ..kernel import short
from ..seams import CLOCK, RNG
from ..storage import Faults
from ..world import sim_keys

RUNS = {"quick": 1400, "thorough": 30000}
RULE = ("Processes that live side by side, are restarted or forked, encrypt equal inputs with equal keys and passwords and make identifiers "
        "and keys while the clock stands still, jumps back and the random source fails now or for good; threads are preempted and "
        "interrupted at any line.  Nonces, session keys, key streams, identifiers and keys never repeat over the whole history.")
REAL = ["pymt.keypairs", "pymt.utils", "Crypto", "uuid", "random", "os.fork (children are real processes run one at a time)"]
STUB = ["random source (seeded, never repeats a value of 8 bytes or more)", "clock", "thread scheduler", "process number", "parties' keys (fixed 1024-bit keys)"]
ASSUME = ["the random source does not repeat values of 8 bytes or more; shorter values do repeat in long histories"]
PROBES = ("password", "keypair", "restart", "fork", "same-input", "clock-back", "clock-frozen", "rng-dead", "rng-dead-midway", "rng-hiccup", "retried",
          "threads", "aborted", "id", "nickname", "rsa-key", "ecc-key", "session-key", "long-history", "empty")
PWS = ["secret", "secret", "other"]


def plan(rng, i, tier):
    vals = [b"", b"same input, again and again"] + gen.values(rng, 3, big=rng.random() < 0.1)
    steps = []
    np = rng.choice([1, 2, 3])
    for _ in range(rng.choice([8, 16, 30])):
        o = gen.pick(rng, {"pw": 5, "kp": 3, "id": 2, "nick": 1, "restart": 1.2, "fork": 0.4, "clock": 0.8, "threads": 0.6,
                           "rsa": 0.08 if tier == "quick" else 0.1, "ecc": 0.3, "rsapem": 0.004})
        s = {"o": o, "p": rng.randrange(np)}
        if o in ("pw", "kp"):
            s["v"] = rng.choice([1, 1, 0, rng.randrange(len(vals))])
            s["w"] = rng.randrange(3)
            s["a"], s["b"] = rng.randrange(2), rng.randrange(2)
        if o in ("pw", "kp", "id", "nick", "rsa", "ecc") and rng.random() < 0.35:
            r = rng.random()
            if r < 0.45:
                s["dead"] = rng.choice([0, 0, 1, 2, 3, 4])
            elif r < 0.75:
                s["hiccup"] = [rng.choice([0, 0, 1, 2, 3]), rng.choice([1, 1, 2])]
            elif o != "rsa":
                s["f"] = [gen.line_fault(rng, 14)]
            s["again"] = 1
        elif o == "clock":
            s["d"] = rng.choice([-3600.0, -1.0, -1e8, 3600.0, 0.0])
        elif o in ("threads", "fork"):
            s["ops"] = [[[rng.choice(["pw", "pw", "kp", "id"]), rng.choice([1, 1, 0]), rng.randrange(2), rng.randrange(2)]
                         for _ in range(rng.choice([1, 2, 3]))] for _ in range(rng.choice([2, 3]) if o == "threads" else rng.choice([1, 1, 2]))]
        steps.append(s)
        if o in ("rsa", "ecc") and rng.random() < 0.6:
            # another one, without entropy
            steps.append({"o": o, "p": s["p"], "again": 1, "once": 1, "dead": rng.choice([0, 0, 0, 1, 2])})
    plan = gen.times(rng, {"cfg": {"np": np, "pid": rng.choice([1, 1, 4711]), "small": rng.choice([0, 0, 1, 16])}, "keys": [], "vals": gen.hexes(vals),
                           "steps": steps, "sched": {"mode": "seed", "seed": rng.randrange(1 << 40), "lines": True, "p": rng.choice([0.1, 0.3, 0.6])}})
    return plan


def oaep_parts(key, enc):
    """(session key, seed) of an OAEP (SHA-1) message, or None."""
    from Crypto.Hash import SHA1
    from Crypto.Signature.pss import MGF1

    k = key.size_in_bytes()
    if len(enc) != k:
        return None
    em = pow(int.from_bytes(enc, "big"), int(key.d), int(key.n)).to_bytes(k, "big")
    h = 20
    if em[0]:
        return None
    seed = bytes(x ^ y for x, y in zip(em[1: 1 + h], MGF1(em[1 + h:], h, SHA1)))
    db = bytes(x ^ y for x, y in zip(em[1 + h:], MGF1(seed, k - h - 1, SHA1)))
    if db[:h] != SHA1.new(b"").digest():
        return None
    return db[h:].lstrip(b"\0")[1:], seed


def run(sim, plan):
    pid = plan["cfg"]["pid"]
    real = os.getpid
    os.getpid = lambda: pid
    try:
        _run(sim, plan)
    finally:
        os.getpid = real


def _run(sim, plan):
    _, vals = sim_keys(plan)
    np = plan["cfg"]["np"]
    RNG.small = plan["cfg"]["small"]
    if RNG.small:
        sim.probe("long-history")
    procs = {}
    seen = {}
    started = [0]

    def start(p):
        if started[0] == 0:
            P = sim.P
        else:
            P = seams.load_pymt()
        started[0] += 1
        procs[p] = (P, [keyworld.party(P, 0, "RsaKeyPair", "p0"), keyworld.party(P, 1, "RsaEncKeyPair", "p1")])

    for p in range(np):
        start(p)

    def fresh(kind, value, what):
        """A value that must not occur twice in the history."""
        k = (kind, value)
        if k in seen:
            sim.fail("repeat-" + kind, "%s %s was used before, in %s and now in %s" % (kind, short(value), seen[k], what))
        seen[k] = what

    def stream(kind, plain, cipher, what):
        if len(plain) >= 12:
            fresh(kind, bytes(x ^ y for x, y in zip(plain[:16], cipher[len(cipher) - len(plain):])), what)

    def do(proc, o, v, a, b, w=0):
        """One operation; returns a function that records its result."""
        P, kps = procs[proc]
        data = vals[v]
        if o == "pw":
            return lambda: P.Utils.encrypt(data, PWS[w])
        if o == "kp":
            return lambda: kps[a].encrypt(data, keyworld.pub(b))
        if o == "id":
            return (lambda: P.Utils.get_id()) if v % 2 else (lambda: P.Utils.get_id_string())
        if o == "nick":
            return lambda: P.RsaKeyPair(_generate_keys=False).nickname
        if o == "rsa":
            def make():
                kp = P.RsaKeyPair("made", _generate_keys=False)
                kp.generate_keypair(1024)
                return kp.public_key
            return make
        if o == "rsapem":
            return P.Utils.generate_rsa_keypair
        return P.Utils.generate_ecc_key

    def record(what, o, v, a, b, w, value):
        data = vals[v]
        if o == "pw":
            sim.probe("password")
            if not data:
                sim.probe("empty")
            fresh("blob", (value), what)
            fresh("nonce", (value[:16]), what)
            stream("key-stream-pw%d" % (0 if w < 2 else 2), data, value, what)
        elif o == "kp":
            sim.probe("keypair")
            fresh("message", value, what)
            try:
                d = json.loads(value)
                fresh("nonce", bytes.fromhex(d["nonce"]), what)
                fresh("wrapped-key", d["enc_session_key"], what)
                c = bytes.fromhex(d["ciphertext"])
                sk = oaep_parts(keyworld.rsa(b), bytes.fromhex(d["enc_session_key"]))
            except (ValueError, KeyError, TypeError):
                return  # another message format
            stream("key-stream", data, c, what)
            if sk is not None:
                sim.probe("session-key")
                fresh("session-key", sk[0], what)
                fresh("padding-seed", sk[1], what)
        elif o == "id":
            sim.probe("id")
            fresh("identifier", value.decode() if isinstance(value, bytes) else value, what)
        elif o == "nick":
            sim.probe("nickname")
            fresh("identifier", value, what)
        else:
            sim.probe("ecc-key" if o == "ecc" else "rsa-key")
            fresh("key", value if isinstance(value, bytes) else value.encode(), what)

    used = set()
    frozen = plan.get("tick") == 0.0
    for n, s in enumerate(plan["steps"]):
        o = s["o"]
        sim.ops[o] += 1
        if o == "restart":
            start(s["p"])
            sim.probe("restart")
            sim.fault("restart")
            if frozen:
                sim.probe("clock-frozen")
            continue
        if o == "clock":
            CLOCK.set(max(0.0, CLOCK.now + s["d"]))
            if s["d"] < 0:
                sim.fault("clock-jump")
                sim.probe("clock-back")
            continue
        if o == "fork":
            # a child process inherits everything and runs on its own
            for c, ops in enumerate(s["ops"]):
                got = in_child(sim, plan, "%d.%d" % (n, c), [do(s["p"], x, v, a, b) for x, v, a, b in ops])
                for (x, v, a, b), (ok, value) in zip(ops, got):
                    if not ok:
                        sim.fail("child", "%s in a forked child raised %s" % (x, value))
                    sim.log("child", x, value)
                    record("step %d (%s in a forked child)" % (n, x), x, v, a, b, 0, value)
            sim.probe("fork")
            sim.fault("fork")
            continue
        if o == "threads":
            results = []

            def task(t, ops):
                def body():
                    for x, v, a, b in ops:
                        out = sim.call(do(s["p"], x, v, a, b))
                        if not out.ok:
                            sim.fail("thread", "%s in a thread %r" % (x, out))
                        results.append((x, v, a, b, out.value))
                return body

            sim.run_tasks([task(t, ops) for t, ops in enumerate(s["ops"])])
            for x, v, a, b, value in results:
                sim.log("thread", x, value)
                record("step %d (%s in a thread)" % (n, x), x, v, a, b, 0, value)
            sim.probe("threads")
            continue
        v, a, b, w = s.get("v", n), s.get("a", 0), s.get("b", 0), s.get("w", 0)
        v %= len(vals)
        f = do(s["p"], o, v, a, b, w)
        if (o, v, a, b) in used:
            sim.probe("same-input")
        used.add((o, v, a, b))
        for turn in range(2 if s.get("again") and not s.get("once") else 1):
            faulty = turn == 0 and s.get("again")
            f0, r0 = sim.fired(), RNG.fired
            if faulty and "dead" in s:
                RNG.arm(s["dead"])
            elif faulty and "hiccup" in s:
                RNG.arm(*s["hiccup"])
            with Faults(sim, {}, s.get("f") if faulty else None):
                out = sim.call(f)
            RNG.disarm()
            bad = RNG.fired > r0
            hit = sim.fired() > f0
            sim.log(o, str(s["p"]), out.ok, out.err or out.value)
            if bad:
                sim.fault("random-source-" + ("dead" if "dead" in s else "hiccup"))
                sim.probe("rng-dead" if "dead" in s else "rng-hiccup")
                if s.get("dead"):
                    sim.probe("rng-dead-midway")
            if faulty and s.get("f") and hit:
                sim.probe("aborted")
            if out.ok:
                if faulty and "dead" in s and (bad or s["dead"] == 0):
                    sim.fail("predictable", "%s returned %s although the random source failed" % (
                        o, short(out.value)))
                record("step %d (%s)" % (n, o), o, v, a, b, w, out.value)
                if turn:
                    sim.probe("retried")
            elif not hit and not bad:
                sim.fail("spurious", "%s without a fault %r" % (o, out))


def in_child(sim, plan, tag, fs):
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    seed = RNG.seed
    small = RNG.small
    pid = os.fork()
    if pid == 0:
        try:
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            signal.alarm(150)
            RNG.reset(seed + b"|child|" + tag.encode())
            RNG.small = small
            random.seed(int.from_bytes(RNG(16), "big"))  # as the interpreter does after a fork
            me = os.getpid() + 1
            os.getpid = lambda: me
            out = []
            for f in fs:
                try:
                    x = f()
                    out.append([True, "b" if isinstance(x, bytes) else "s", x.hex() if isinstance(x, bytes) else x])
                except Exception as e:
                    out.append([False, "s", repr(e)])
            data = json.dumps(out).encode()
            while data:
                data = data[os.write(w, data):]
        finally:
            os._exit(0)
    os.close(w)
    data = b""
    try:
        while True:
            x = os.read(r, 65536)
            if not x:
                break
            data += x
    except BaseException:
        os.kill(pid, 9)
        raise
    finally:
        os.close(r)
        os.waitpid(pid, 0)
    if not data:
        sim.fail("child", "operations of a forked child do not end")
    return [(ok, bytes.fromhex(x) if t == "b" else x) for ok, t, x in json.loads(data)]
