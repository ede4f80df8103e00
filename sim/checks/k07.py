"""K07: restricted key pairs never do what their role excludes."""
import copy

from .. import gen, keyworld, seams, simfs
from ..seams import CLOCK, RNG
from ..simfs import SimFS
from ..storage import Faults

RUNS = {"quick": 4000, "thorough": 60000}
RULE = ("Processes with general, authentication-only and encryption-only key pairs are asked to sign, check, encrypt and decrypt genuine and "
        "arbitrary data after any history of saving (file or string), loading, renaming, copying and restarting, from several threads, with "
        "interrupts at any line and a failing random source; a key pair always raises for an operation outside its role, and performs those "
        "inside it.")
REAL = ["pymt.keypairs", "pymt.utils", "Crypto", "json", "io buffering"]
STUB = ["file system (SimFS)", "random source (seeded)", "clock", "thread scheduler", "keys (fixed 1024-bit keys)", "PBKDF2 rounds lowered to 1000"]
ASSUME = ["a key pair has the role of the class it was made or loaded as"]
PROBES = ("refused", "performed", "loaded", "file", "string", "loaded-as-other", "loaded-as-two", "restart", "copied", "renamed", "threads", "aborted",
          "rng-failed", "refused-sign", "refused-check", "refused-encrypt", "refused-decrypt", "own-signature", "default-key", "empty")
CLS = ["RsaKeyPair", "RsaAuthKeyPair", "RsaEncKeyPair"]
EXCLUDED = {"RsaKeyPair": (), "RsaAuthKeyPair": ("encrypt", "decrypt"), "RsaEncKeyPair": ("sign", "check")}


def ask(rng, np, nv):
    return {"what": rng.choice(["sign", "check", "encrypt", "decrypt"]), "p": rng.randrange(np), "q": rng.randrange(np), "v": rng.randrange(nv),
            "m": rng.randrange(4)}


def plan(rng, i, tier):
    np = rng.choice([2, 3, 4])
    parties = [{"key": j + rng.choice([0, 4]), "cls": rng.choice(CLS if j else CLS[1:])} for j in range(np)]
    vals = [b""] + gen.values(rng, 5)
    steps = []
    for _ in range(rng.choice([5, 10, 18])):
        o = gen.pick(rng, {"ask": 9, "save": 2, "restart": 0.4, "copy": 0.5, "rename": 0.3, "threads": 0.5, "clock": 0.3})
        s = {"o": o, "p": rng.randrange(np)}
        if o == "ask":
            s.update(ask(rng, np, len(vals)))
            if rng.random() < 0.15:
                if rng.random() < 0.7:
                    s["f"] = [gen.line_fault(rng, 12)]
                else:
                    s["rng"] = rng.randrange(3)
        elif o == "save":
            s.update(form=rng.choice(["file", "string"]), cls=rng.choice(CLS) if rng.random() < 0.4 else None,
                     first=rng.choice(CLS) if rng.random() < 0.4 else None)
        elif o == "clock":
            s["d"] = rng.choice([-1e8, 3600.0, 1e9])
        elif o == "threads":
            s["ops"] = [[ask(rng, np, len(vals)) for _ in range(rng.choice([1, 2, 3]))] for _ in range(rng.choice([2, 3]))]
        steps.append(s)
    return gen.times(rng, {"cfg": {"parties": parties}, "keys": [], "vals": gen.hexes(vals), "steps": steps,
                           "sched": {"mode": "seed", "seed": rng.randrange(1 << 40), "lines": True, "p": rng.choice([0.1, 0.3, 0.6])}})


def run(sim, plan):
    simfs.install()
    fs = SimFS(sim)
    fs.mkdir("/simdisk/keys")
    vals = gen.unhex(plan["vals"])
    parties = plan["cfg"]["parties"]
    P = [sim.P]
    cls = [p["cls"] for p in parties]
    names = ["party%d" % j for j in range(len(parties))]

    def make(j):
        return keyworld.party(P[0], parties[j]["key"], cls[j], names[j])

    kp = [make(j) for j in range(len(parties))]

    def genuine(a, b, data, what):
        """What an honest general party with key a sends to key b (or signs)."""
        snd = keyworld.party(P[0], a, "RsaKeyPair", "reference")
        return snd.encrypt(data, keyworld.pub(b)) if what == "decrypt" else snd.sign(data)

    def prepare(s):
        a, b = parties[s["p"]]["key"], parties[s["q"]]["key"]
        data = vals[s["v"]]
        m = s["m"]
        if s["what"] == "sign":
            return (data,), None
        if s["what"] == "encrypt":
            return (data, keyworld.pub(b if m else a)), None
        if s["what"] == "decrypt":
            msg = genuine(b, a, data, "decrypt") if m else data
            return (msg, keyworld.pub(b)), (data if m else ...)
        if m == 0:  # its own signature, checked without naming a key
            return (data, genuine(a, b, data, "check")), True
        if m == 3:
            return (data, data, keyworld.pub(b)), False
        return (data, genuine(b, a, data, "check"), keyworld.pub(b)), True

    def do(s, args, want, where, fault=None, rng=None):
        j, what = s["p"], s["what"]
        fn = getattr(kp[j], {"check": "signature_valid"}.get(what, what))
        f0 = sim.fired()
        if rng is not None:
            RNG.arm(rng, 1)
        with Faults(sim, {}, fault):
            out = sim.call(fn, *args)
        RNG.disarm()
        hit = sim.fired() > f0
        if hit:
            sim.probe("rng-failed" if rng is not None else "aborted")
        sim.log(where, what, cls[j], out.ok, out.err or "")
        if not args[0]:
            sim.probe("empty")
        if what in EXCLUDED[cls[j]]:
            if out.ok:
                sim.fail("permitted", "a%s %s does %s%s" % (where, cls[j], {
                    "sign": "sign", "check": "check a signature and answers %r" % (out.value,), "encrypt": "encrypt", "decrypt": "decrypt"}[what],
                    " (with a fault)" if hit else ""))
            sim.probe("refused")
            sim.probe("refused-" + what)
            return
        if hit and not out.ok:
            return
        if want is ...:  # not a message at all
            if out.ok:
                sim.fail("nonsense", "a %s decrypts arbitrary bytes" % cls[j])
            return
        if not out.ok or (want is not None and out.value != want):
            sim.fail("refused", "a%s %s cannot %s: %r" % (where, cls[j], what, out))
        sim.probe("performed")
        if what == "check" and len(args) == 2:
            sim.probe("default-key")
        if what == "check" and want and len(args) == 3 and s["p"] == s["q"]:
            sim.probe("own-signature")

    for s in plan["steps"]:
        o = s["o"]
        sim.ops[o] += 1
        j = s["p"]
        if s.get("dt"):
            CLOCK.advance(s["dt"])
        if o == "ask":
            args, want = prepare(s)
            do(s, args, want, "", s.get("f"), s.get("rng"))
        elif o == "save":
            pw = "pass %d" % j
            new = s["cls"] or cls[j]
            first = s.get("first")
            if s["form"] == "file":
                path = "/simdisk/keys/%d" % j
                out = sim.call(kp[j].to_key_file, path, pw)
                if first and out.ok:
                    out = sim.call(getattr(P[0], first).from_key_file, path, pw)
                got = sim.call(getattr(P[0], new).from_key_file, path, pw) if out.ok else out
            else:
                out = sim.call(kp[j].to_key_string, pw)
                text = out.value
                if first and out.ok:
                    out = sim.call(getattr(P[0], first).from_key_string, text, pw)
                got = sim.call(getattr(P[0], new).from_key_string, text, pw) if out.ok else out
            if first and first != new:
                sim.probe("loaded-as-two")
            sim.log("save", s["form"], cls[j], new, got.ok)
            if not got.ok:
                sim.fail("save", "a %s cannot be saved and loaded as %s: %r" % (cls[j], new, got))
            kp[j] = got.value
            if new != cls[j]:
                sim.probe("loaded-as-other")
            cls[j] = new
            sim.probe("loaded")
            sim.probe(s["form"])
        elif o == "restart":
            P[0] = seams.load_pymt()
            kp[:] = [make(q) for q in range(len(parties))]
            sim.probe("restart")
            sim.fault("restart")
        elif o == "copy":
            kp[j] = copy.copy(kp[j])
            sim.probe("copied")
        elif o == "rename":
            names[j] = kp[j].nickname = "general party %d" % j
            sim.probe("renamed")
        elif o == "clock":
            CLOCK.set(max(0.0, CLOCK.now + s["d"]))
            sim.fault("clock-jump")
        else:
            ready = [[(q, ) + prepare(q) for q in ops] for ops in s["ops"]]

            def task(ops):
                def body():
                    for q, args, want in ops:
                        do(q, args, want, " shared")
                return body

            sim.run_tasks([task(ops) for ops in ready])
            sim.probe("threads")
    simfs.CUR[0] = None
