"""K06: password-encrypted data comes back exactly or not at all."""
import os

from .. import gen, seams, simfs
from ..kernel import short
from ..seams import CLOCK, RNG
from ..simfs import SimFS
from ..storage import Faults
from ..keyworld import near_password
from ..world import sim_keys

RUNS = {"quick": 8000, "thorough": 120000}
RULE = ("Encrypted blobs are kept on a simulated disk and sent over a network that flip bits, truncate, extend, lose, zero, repeat and exchange "
        "blocks and mix blobs of the same and other passwords, while processes restart, clocks jump, threads are preempted and interrupted at "
        "any line and the random source fails; an undamaged blob decrypts to the original with its password, anything else raises.")
REAL = ["pymt.utils.utils", "Crypto", "io buffering"]
STUB = ["file system (SimFS)", "network", "random source (seeded)", "clock", "thread scheduler"]
ASSUME = ["AES-EAX tags are unforgeable and SHA-256 of passwords does not collide"]
PROBES = ("exact", "rejected", "wrong-pass", "mixed", "old-version", "power-loss", "restart", "empty", "big", "threads", "aborted", "rng-failed",
          "nonce-damaged", "tag-damaged", "cipher-damaged", "short-blob", "moved", "odd-password")
PWS = ["secret", "", " ", "Secret", "pässword", "密码", "p" * 300, "a\0b", "secret ", "secret\0", "\ufeffsecret", "e\u0301", "\u00e9",
       "correct horse battery staple", "x" * 71 + "yz", "\u5bc6\u7801" * 20, "12345678", "\U0001f511key", "secret\udcff", "\ud800\udcffwords", "secret?"]
KINDS = ["flip", "flip", "flip", "flip2", "trunc", "ext", "lose", "zero", "dup", "swap", "mixhead", "mixtail", "mixblk", "head16", "tag16",
         "body", "perm", "extb", "empty", "upper", "piece", "piece", "edge"]


def plan(rng, i, tier):
    big = rng.random() < 0.04
    vals = [b"", b"\0" * 16, b"\0" * 40] + gen.values(rng, 5, big=rng.random() < 0.1)
    if rng.random() < 0.1:
        vals += [gen.sized(rng)] * 2
    elif i % 41 == 17:
        vals[1:3] = [gen.huge(rng)] * 2
    if big:
        vals.append(bytes(rng.randrange(256) for _ in range(1000)) * rng.choice([70, 200, 1100]))
    steps, nb = [], 0
    for _ in range(rng.choice([8, 16, 30])):
        o = gen.pick(rng, {"enc": 4, "dec": 10, "restart": 0.5, "clock": 0.4, "threads": 0.3, "power": 0.3})
        if nb == 0:
            o = "enc"
        s = {"o": o}
        if o == "enc":
            s.update(m=nb, v=rng.randrange(len(vals)), w=rng.choice([0, rng.randrange(len(PWS))]), slot=rng.randrange(3))
            nb += 1
        elif o == "dec":
            s["m"] = rng.randrange(nb)
            if rng.random() < 0.75:
                s["x"] = [[rng.choice(KINDS), rng.randrange(1 << 24), rng.randrange(1 << 24)] for _ in range(rng.choice([1, 1, 1, 2, 3]))]
            if rng.random() < 0.2:
                s["w"] = rng.randrange(len(PWS)) if rng.random() < 0.3 else [rng.randrange(1 << 16), rng.randrange(1 << 16)]
            if rng.random() < 0.2:
                s["slot"] = rng.randrange(3)  # whatever the disk holds there
        elif o == "clock":
            s["d"] = rng.choice([-1e8, -1.0, 3600.0, 1e9])
        elif o == "power":
            s["p"] = [rng.choice([0, 1, 99]), rng.randrange(1 << 12), [rng.randrange(4), rng.randrange(5000)] if rng.random() < 0.5 else None]
        elif o == "threads":
            s["ops"] = [[[rng.choice(["enc", "dec", "bad"]), rng.randrange(len(vals)), rng.randrange(len(PWS)), rng.randrange(nb)]
                         for _ in range(rng.choice([1, 2, 3]))] for _ in range(rng.choice([2, 3]))]
        if o in ("enc", "dec") and rng.random() < 0.15:
            if rng.random() < 0.6:
                s["f"] = [gen.line_fault(rng, 10)]
            else:
                s["rng"] = [rng.randrange(2), rng.choice([1, None])]
        steps.append(s)
    return gen.times(rng, {"cfg": {"fsync": rng.random() < 0.5}, "keys": [], "vals": gen.hexes(vals), "steps": steps,
                           "sched": {"mode": "seed", "seed": rng.randrange(1 << 40), "lines": True, "p": rng.choice([0.1, 0.3, 0.6])}})


def damage(kind, a, b, blob, other):
    x, y = bytearray(blob), bytearray(other)
    n = len(x)
    if kind == "flip" and n:
        # every part of the blob equally often
        part = [(0, 16), (16, 32), (32, n)][b % 3]
        lo, hi = min(part[0], n - 1), max(min(part[1], n), min(part[0], n - 1) + 1)
        x[lo + (a // 8) % (hi - lo)] ^= 1 << (a % 8)
    elif kind == "flip2" and n:
        x[a % n] ^= 1 + b % 255
        x[b % n] ^= 1 + a % 255
    elif kind == "trunc" and n:
        x = x[: [a % n, n - 1, n - 16, 32, 31, 16, 0][b % 7] % (n + 1)]
    elif kind == "ext":
        x += [b"\0", b"\0" * 16, bytes([a % 256]) * (1 + b % 40), bytes(x)][b % 4]
    elif kind == "piece" and n:
        # a part of the blob appears once more
        p, w = [(0, 16), (16, 16), (0, 32), (32, 16), (n - 16, 16), (a % n, 16), (a % n, 1 + b % 64)][a % 7]
        part = x[max(p, 0): max(p, 0) + w]
        q = [n, n, 0, 16, 32, b % (n + 1)][b % 6]
        if b // 8 % 3:
            x[q:q] = part
        else:
            q = min(q, n - 1)
            x[q: q + len(part)] = part
    elif kind == "edge":
        pad = [b"\n", b"\r\n", b" ", b"\t", b"\0", b"=", b"\x01", b"\x10" * 16][a % 8]
        x = x + pad if b % 3 else pad + x
    elif kind == "extb":
        x = bytearray(bytes([a % 256])) + x
    elif kind == "lose" and n:
        p, w = a % n, 1 + b % 32
        del x[p: p + w]
    elif kind == "zero" and n:
        w = [1, 16, 32, 512][b % 4]
        p = a % n // w * w
        x[p: p + w] = bytes(len(x[p: p + w]))
    elif kind == "dup" and n:
        w = [1, 8, 16, 512][b % 4]
        p = a % n // w * w
        x[p:p] = x[p: p + w]
    elif kind in ("swap", "perm") and n > 1:
        w = [1, 8, 16, 32][b % 4]
        p, q = sorted([a % n // w * w, (a // 7) % n // w * w])
        if q + w <= n and p != q:
            x[p: p + w], x[q: q + w] = x[q: q + w], x[p: p + w]
    elif kind == "mixhead" and n:
        x = x[: a % n] + y[a % n:]
    elif kind == "mixtail" and n:
        x = y[: a % n] + x[a % n:]
    elif kind == "mixblk" and n:
        w = [8, 16, 32, 512][b % 4]
        p = a % n // w * w
        x[p: p + w] = y[p: p + w]
    elif kind == "head16":
        x[:16] = y[:16]
    elif kind == "tag16":
        x[16:32] = y[16:32]
    elif kind == "body":
        x[32:] = y[32:]
    elif kind == "empty":
        x = bytearray()
    elif kind == "upper":
        x = bytearray(bytes(x).upper() if a % 2 else bytes(x).hex().encode())
    return bytes(x)


def run(sim, plan):
    simfs.install()
    fs = SimFS(sim)
    fs.access = lambda op: None
    fs.done = lambda op, k: None
    _, vals = sim_keys(plan)
    P = [sim.P]
    made = {}  # number -> (blob, plaintext, password)
    on_disk = {}

    def path(slot):
        return "/simdisk/blob%d" % slot

    def encrypt(m, data, pw, slot=None, fault=None, rng=None):
        f0 = sim.fired()
        if rng is not None:
            RNG.arm(*rng)
        with Faults(sim, {}, fault):
            out = sim.call(P[0].Utils.encrypt, data, pw)
        RNG.disarm()
        hit = sim.fired() > f0
        sim.log("enc", str(len(data)), out.ok, out.err or out.value[:40])
        if hit:
            sim.probe("aborted" if rng is None else "rng-failed")
        if not out.ok:
            if not hit and not any("\ud800" <= c <= "\udfff" for c in pw):
                sim.fail("encrypt", "%d bytes cannot be encrypted with password %r: %r" % (len(data), pw, out))
            return
        if not isinstance(out.value, bytes):
            sim.fail("encrypt", "encryption gives %s" % short(out.value))
        if len(data) > 8 and data in out.value:
            sim.fail("plain", "the encrypted blob holds the plain text")
        made[m] = (out.value, data, pw)
        if pw not in ("secret", "other"):
            sim.probe("odd-password")
        sim.probe("empty") if not data else None
        sim.probe("big") if len(data) > 60000 else None
        if slot is not None:
            with open(path(slot), "wb") as f:
                f.write(out.value)
                if plan["cfg"]["fsync"]:
                    f.flush()
                    os.fsync(f.fileno())
            on_disk.setdefault(slot, []).append(m)

    def decrypt(blob, pw, fault=None, rng=None, how=""):
        f0 = sim.fired()
        if rng is not None:
            RNG.arm(*rng)
        with Faults(sim, {}, fault):
            out = sim.call(P[0].Utils.decrypt, blob, pw)
        RNG.disarm()
        hit = sim.fired() > f0
        sim.log("dec", str(len(blob)), out.ok, out.err or out.value[:40])
        owners = [x for x in made.values() if x[0] == blob and x[2] == pw]
        if owners:
            if not out.ok:
                if not hit:
                    sim.fail("rejected", "an undamaged blob of %d bytes is not decrypted with its password %r: %r" % (len(blob), pw, out))
                return
            if out.value != owners[0][1]:
                sim.fail("other-bytes", "an undamaged blob of %s decrypts to %s" % (short(owners[0][1]), short(out.value)))
            sim.probe("exact")
            return
        if out.ok:
            sim.fail("accepted", "decryption with %s gives %s although the blob (%d bytes) %s" % (
                "password %r" % pw, short(out.value), len(blob),
                "was encrypted with another password" if any(x[0] == blob for x in made.values()) else "was damaged (%s)" % how))
        sim.probe("rejected")

    n2 = 1 << 20
    for s in plan["steps"]:
        o = s["o"]
        sim.ops[o] += 1
        if o == "enc":
            encrypt(s["m"], vals[s["v"]], PWS[s["w"]], s["slot"], s.get("f"), s.get("rng"))
        elif o == "restart":
            P[0] = seams.load_pymt()
            sim.probe("restart")
            sim.fault("restart")
        elif o == "clock":
            CLOCK.set(max(0.0, CLOCK.now + s["d"]))
            sim.fault("clock-jump")
        elif o == "power":
            m, keep, tear = s["p"]
            fs.power_loss(m, lambda i: keep >> (i % 12) & 1, tear)
            P[0] = seams.load_pymt()
            sim.fault("power-loss")
            for slot in sorted(on_disk):
                blob = fs.peek(path(slot))
                if blob is not None:
                    sim.probe("power-loss")
                    for pw in sorted({made[m][2] for m in on_disk[slot]}):
                        decrypt(blob, pw, how="power loss")
            fs.sync_all()
        elif o == "dec" and s["m"] in made:
            blob, data, pw = made[s["m"]]
            if s.get("slot") is not None and on_disk.get(s["slot"]):
                blob = fs.peek(path(s["slot"])) or b""
                if blob == made[on_disk[s["slot"]][-1]][0]:
                    sim.probe("moved")
            known = sorted(made)
            how = []
            for kind, a, b in s.get("x", ()):
                q = known[a % len(known)]
                same = [k for k in known if made[k][2] == pw and k != s["m"]]
                if same and b % 4:
                    q = same[a % len(same)]
                new = damage(kind, a, b, blob, made[q][0])
                if new != blob:
                    sim.fault("damage-" + kind)
                    how.append(kind)
                    if kind.startswith("mix") or kind in ("head16", "tag16", "body"):
                        sim.probe("mixed")
                    if made[q][1] == data and q != s["m"]:
                        sim.probe("old-version")
                    sim.probe("nonce-damaged") if new[:16] != blob[:16] else None
                    sim.probe("tag-damaged") if new[16:32] != blob[16:32] else None
                    sim.probe("cipher-damaged") if new[32:] != blob[32:] else None
                    sim.probe("short-blob") if len(new) < 32 else None
                blob = new
            w = pw
            if isinstance(s.get("w"), list):
                w = near_password(pw, *s["w"])
            elif s.get("w") is not None:
                w = PWS[s["w"]]
            if w != pw:
                pw = w
                sim.probe("wrong-pass")
                sim.fault("wrong-password")
            decrypt(blob, pw, s.get("f"), s.get("rng"), "+".join(how) or "-")
        elif o == "threads" and made:
            known = sorted(made)
            n2 += 100

            def task(t, ops, base):
                def body():
                    for q, (what, v, w, n) in enumerate(ops):
                        if what == "enc":
                            encrypt(base + 10 * t + q, vals[v], PWS[w])
                        else:
                            blob, data, pw = made[known[n % len(known)]]
                            if what == "bad":
                                blob = damage("flip", v * 7919 + n, w, blob, b"")
                            decrypt(blob, pw, how="a flipped bit, in a thread")
                return body

            sim.run_tasks([task(t, ops, n2) for t, ops in enumerate(s["ops"])])
            sim.probe("threads")
            for n in sorted(x for x in made if x >= n2):
                decrypt(made[n][0], made[n][2])
    # everything encrypted is still there
    for n in sorted(made):
        decrypt(made[n][0], made[n][2])
    simfs.CUR[0] = None
