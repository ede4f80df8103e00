"""K03: saving a key pair never destroys the copy already on disk."""
import sys

from .. import keyworld, seams, simfs
from ..kernel import SimCrash, short
from ..simfs import SimFS
from ..storage import Faults

RUNS = {"quick": 2200, "thorough": 40000}
RULE = ("Key pairs are saved over one another on a simulated disk that fills up, fails, writes short and torn, while processes are "
        "killed or interrupted at any system call or line and the power fails (unsynced writes lost or torn, pending name changes cut "
        "off); other threads load and save meanwhile.  The file always loads as the previous or the new key pair; a save that returned is "
        "there afterwards, also after a power loss.")
REAL = ["pymt.keypairs", "pymt.utils", "Crypto", "json", "io buffering"]
STUB = ["file system (SimFS)", "random source (seeded)", "clock", "thread scheduler", "keys (fixed 1024-bit keys)", "PBKDF2 rounds lowered to 1000"]
ASSUME = ["rename is atomic, metadata is journaled in order, fsync of a directory makes its names durable"]
PROBES = ("saved", "save-failed", "crash-in-save", "power-loss", "power-loss-in-save", "old-survived", "new-survived", "disk-full",
          "first-save", "reader", "writers", "aborted", "through-link", "saved-then-power-loss", "short-write", "saved-again", "renamed",
          "new-passphrase")
PATHS = ["/simdisk/keys/id.json", "/simdisk/other.key"]


def plan(rng, i, tier):
    steps = []
    big = rng.random() < 0.2  # a long nickname: the file needs several writes
    n = rng.choice([2, 4, 7])
    fp = rng.choice([0.3, 0.6, 0.9])
    for j in range(n):
        o = "threads" if rng.random() < 0.15 else "save"
        s = {"o": o, "k": rng.randrange(8), "p": 0 if rng.random() < 0.8 else 1, "nick": j if not big else 20000 + j,
             "cls": rng.choice(["RsaKeyPair", "RsaAuthKeyPair", "RsaEncKeyPair"]), "via": rng.random() < 0.6}
        if rng.random() < 0.15:
            s["odd"] = rng.choice(["", " ", "null", "\u043a\u043b\u044e\u0447", "a\"b\\c\n", "\ud800x", "nick-0", "0", "public_key"])
        if o == "save":
            # one living key pair saved again, perhaps renamed; under one of two passphrases
            s["again"] = [rng.randrange(2), rng.random() < 0.6] if j and rng.random() < 0.35 else None
            s["pw"] = rng.random() < 0.3
            if j and rng.random() < fp or rng.random() < 0.1:
                r = rng.random()
                if r < 0.62:
                    e = rng.choice(["crash", "crash", "crash", "nospc", "io", "io", "perm", "intr", "mem", "mfile"])
                    s["f"] = [{"s": "fs", "on": rng.choice(["any", "any", "any", "write", "write", "fsync", "close", "open", "create", "rename", "meta", "stat"]),
                               "n": int(rng.expovariate(0.35)), "k": rng.choice(["before", "before", "after", "partial"]),
                               "e": e, "c": rng.choice([0, 1, 7, 100, rng.randrange(4096)]), "len": rng.choice([1, 1, 2, 50])}]
                    if s["f"][0]["k"] == "partial" and rng.random() < 0.3:
                        s["f"][0]["e"] = "short"
                        s["f"][0]["on"] = "write"
                elif r < 0.8:
                    s["f"] = [{"s": "line", "n": rng.randrange(60), "e": rng.choice(["crash", "crash", "intr", "mem"])}]
                else:
                    s["cap"] = rng.choice([0, 1, 50, 500, 1500, 2200, 3000])
            if rng.random() < 0.45:
                s["power"] = [rng.choice([0, 1, 2, 3, 99]), rng.randrange(1 << 12), [rng.randrange(4), rng.randrange(5000)] if rng.random() < 0.3 else None]
        else:
            s["ops"] = [[[rng.choice(["save", "load", "load"]), rng.randrange(8)] for _ in range(rng.choice([1, 2]))]
                        for _ in range(rng.choice([2, 3]))]
            if rng.random() < 0.3:
                s["f"] = [{"s": "fs", "on": "any", "n": rng.randrange(30), "k": "before", "e": "crash", "len": 1}]
        steps.append(s)
    return {"cfg": {"alias": rng.choice(["", "", "file", "relfile", "dir"])}, "keys": [], "vals": [], "steps": steps,
            "sched": {"mode": "seed", "seed": rng.randrange(1 << 40), "lines": rng.random() < 0.5, "p": rng.choice([0.05, 0.2, 0.5])}}


def run(sim, plan):
    simfs.install()
    sys.unraisablehook = lambda *a: None  # buffers of dead processes
    fs = SimFS(sim)
    fs.mkdir("/simdisk/keys")
    # a second name of one of the files, through a symbolic link
    kind = plan["cfg"].get("alias", "")
    alias, of = {"": (None, None), "dir": ("/simdisk/kl/id.json", PATHS[0])}.get(kind, ("/simdisk/keys/l.json", PATHS[1]))
    if kind == "dir":
        fs.symlink("keys", "/simdisk/kl")
    elif kind:
        fs.symlink("../other.key" if kind == "relfile" else PATHS[1], alias)
    fs.commit(99)
    P = sim.P
    current = {p: None for p in PATHS}  # what the file holds: (key, nickname, passphrase) or None
    PWS = ["the passphrase", "another one"]
    live = {}  # path -> [key, nickname, key pair] last saved there by the running process

    def load(path, tag, allowed):
        """The file loads as one of `allowed`, under that one's passphrase; returns which."""
        raw = fs.peek(path)
        if raw is None:
            if None in allowed:
                return None
            sim.fail(tag + "-gone", "the key file is gone; it held a saved key pair")
        worst = None
        for pw in sorted({a[2] for a in allowed if a is not None}) or [PWS[0]]:
            fs.quiet = True
            try:
                out = sim.call(P.RsaKeyPair.from_key_file, path, pw)
            finally:
                fs.quiet = False
            if not out.ok:
                worst = worst or (tag, "the key file no longer loads (%d bytes): %r" % (len(raw), out))
                continue
            got = (out.value.public_key, out.value.nickname, pw)
            for a in allowed:
                if a is not None and keyworld.pub(a[0]) == got[0] and a[1:] == got[1:]:
                    if not keyworld_ok(a[0], out.value.sign(b"probe")):
                        sim.fail(tag + "-bad-key", "the loaded key pair makes invalid signatures")
                    return a
            worst = (tag + "-other", "the key file loads as another key pair (nickname %s) than the previous or the new one" % short(got[1]))
        sim.fail(*worst)

    def make(s):
        nick = s["odd"] if s.get("odd") is not None else "nick-%d" % s["nick"] if s["nick"] < 20000 else "n%d-" % s["nick"] + "x" * 20000
        pw = PWS[bool(s.get("pw"))]
        last = live.get(PATHS[s["again"][0]]) if s.get("again") else None
        if last is None:
            return (s["k"], nick, pw), [s["k"], nick, keyworld.party(P, s["k"], s["cls"], nick)]
        k, old, kp = last
        sim.probe("saved-again")
        if s["again"][1]:
            kp.nickname = last[1] = nick
            sim.probe("renamed")
        else:
            nick = old
        return (k, nick, pw), last

    for s in plan["steps"]:
        o, path = s["o"], PATHS[s["p"]]
        sim.ops[o] += 1
        if o == "save":
            want, party = make(s)
            old = current[path]
            name = alias if alias and path == of and s.get("via") else path
            if s.get("cap") is not None:
                fs.capacity = fs.used() + s["cap"]
            f0 = sim.fired()
            with Faults(sim, {"fs": fs}, s.get("f")):
                out = sim.call(party[2].to_key_file, name, want[2])
            if old is not None and old[2] != want[2]:
                sim.probe("new-passphrase")
            live[path] = party
            fs.capacity = None
            hit = sim.fired() > f0
            sim.log("save", path, str(s["k"]), out.ok, out.err or "", "crashed" if out.crashed else "")
            crashed = out.crashed or fs.dead
            if hit and s.get("cap") is not None:
                sim.probe("disk-full")
            if s.get("f") and s["f"][0].get("e") == "short" and hit:
                sim.probe("short-write")
            if not out.ok and not hit:
                sim.fail("save", "saving to a working disk %r" % out)
            if out.ok and not crashed:
                allowed = [want]
                sim.probe("saved")
                if old is None:
                    sim.probe("first-save")
            elif crashed:
                allowed = [old, want]
                sim.probe("crash-in-save")
                fs.process_crash()
                P = seams.load_pymt()
                live.clear()
            else:
                allowed = [old, want]
                sim.probe("save-failed")
                if s.get("f") and s["f"][0]["s"] == "line":
                    sim.probe("aborted")
            if s.get("power"):
                m, keep, tear = s["power"]
                lost = fs.power_loss(m, lambda i: keep >> (i % 12) & 1, tear)
                sim.fault("power-loss")
                sim.probe("power-loss" if out.ok else "power-loss-in-save")
                if out.ok:
                    sim.probe("saved-then-power-loss")
                sim.log("power-loss", str(lost))
                P = seams.load_pymt()
                live.clear()
                # other files were durable before
            tag = "after-" + ("crash" if crashed else "save" if out.ok else "failure")
            got = load(name, tag, allowed)
            if name != path:
                sim.probe("through-link")
            if name != path and kind != "dir" and fs.kind(alias)[:1] != "l":
                # a file of its own took the place of the link: the other file is as it was
                alias = None
                got = load(path, tag, [old, want])
            elif alias and path == of:
                got = load(path, tag, [got])
            if got == old and got != want:
                sim.probe("old-survived")
            elif not out.ok and got == want:
                sim.probe("new-survived")
            current[path] = got
            for q in PATHS:
                if q != path:
                    load(q, "bystander", [current[q]])
            fs.sync_all()
        else:
            # other threads save and load the same file meanwhile
            pairs = {}
            pw = current[path][2] if current[path] else PWS[0]
            s = dict(s, pw=pw == PWS[1])
            for ops in s["ops"]:
                for n, (what, k) in enumerate(ops):
                    pairs[k] = make(dict(s, k=k))
            allowed = [current[path]] + [pairs[k][0] for ops in s["ops"] for what, k in ops if what == "save"]
            returned = []
            dead = [False]
            fs.arm(s["f"][0] if s.get("f") else None)

            def task(ops):
                def body():
                    for what, k in ops:
                        if dead[0]:
                            return
                        if what == "save":
                            out = sim.call(pairs[k][1][2].to_key_file, path, pw)
                            if out.crashed or fs.dead:
                                dead[0] = True
                                return
                            if not out.ok:
                                sim.fail("thread-save", "saving while others save and load %r" % out)
                            returned.append(k)
                        else:
                            out = sim.call(P.RsaKeyPair.from_key_file, path, pw)
                            if out.crashed or fs.dead:
                                dead[0] = True
                                return
                            if not out.ok:
                                if isinstance(out.exc, FileNotFoundError) and allowed[0] is None:
                                    continue
                                sim.fail("thread-load", "loading while another thread saves %r" % out)
                            got = (out.value.public_key, out.value.nickname)
                            if not any(a is not None and keyworld.pub(a[0]) == got[0] and a[1] == got[1] for a in allowed):
                                sim.fail("thread-load-other", "loading while another thread saves gives an unknown key pair")
                            sim.probe("reader")
                return body

            sim.run_tasks([task(ops) for ops in s["ops"]])
            fs.disarm()
            sim.log("threads", str(len(returned)), "crashed" if dead[0] else "")
            if dead[0]:
                fs.process_crash()
                P = seams.load_pymt()
                live.clear()
            if len(returned) > 1:
                sim.probe("writers")
            current[path] = load(path, "after-threads", allowed[1:] if returned and not dead[0] else allowed)
            fs.sync_all()
    simfs.CUR[0] = None


def keyworld_ok(k, sig):
    from Crypto.Hash import SHA256
    from Crypto.Signature import pkcs1_15

    try:
        pkcs1_15.new(keyworld.rsa(k)).verify(SHA256.new(b"probe"), sig)
        return True
    except (ValueError, TypeError):
        return False
