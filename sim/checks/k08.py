"""K08: secrets never stand in the clear."""
import base64
import contextlib
import hashlib
import io
import json
import re
import sys

from Crypto.Cipher import AES
from Crypto.PublicKey import RSA

from .. import gen, keyworld, seams, simfs
from ..kernel import short
from ..seams import CLOCK, RNG
from ..simfs import SimFS
from ..storage import Faults

RUNS = {"quick": 1800, "thorough": 30000}
RULE = ("Key pairs are saved to files and strings and messages and blobs are encrypted while the disk fills, fails, tears and loses power, the "
        "random source fails, calls are interrupted at any line, processes restart and threads are preempted.  An eavesdropper reads every "
        "state of every file (temporary ones included), every string, message, blob, printed line, repr and error: none shows a piece of a "
        "private key, passphrase, password or plain text, none opens with what it contains itself, none shows where a plain text repeats.")
REAL = ["pymt.keypairs", "pymt.utils", "Crypto", "json", "io buffering"]
STUB = ["file system (SimFS)", "network", "random source (seeded)", "clock", "thread scheduler", "keys (fixed 1024-bit keys)", "PBKDF2 rounds lowered to 1000"]
ASSUME = ["the eavesdropper undoes hexadecimal, base64, JSON, PEM and number notations and tries what he sees as key or passphrase, no more",
          "AES-EAX, OAEP and PBES2 as Crypto implements them hide what they encrypt"]
PROBES = ("file", "file-failed", "temporary", "key-string", "message", "blob", "repr", "error", "rng-failed", "aborted", "crash", "power-loss",
          "restart", "threads", "repetitive", "big", "odd-passphrase", "tiny", "loaded", "to-itself")
WORDS = ["correct horse battery", "a-long-enough-passphrase", "p\u00e4ssw\u00f6rter-und-mehr", "\u5bc6\u7801\u5bc6\u7801\u5bc6\u7801", "with space at end   ",
         "x" * 15 + "yzyzy" * 14, "0123456789abcdef0123", "{\"json\": \"passphrase\"}", "None-of-your-business"]
SHORT = ["pw", " ", "0", "None", "", "a", "\u00e9", "\n"]
HEX = re.compile(rb"[0-9a-fA-F]{24,}")
B64 = re.compile(rb"[A-Za-z0-9+/_-]{24,}={0,2}")
DEC = re.compile(rb"[0-9]{30,}")


def plan(rng, i, tier):
    vals = []
    for _ in range(5):
        r = rng.random()
        if r < 0.15:
            vals.append(["tiny", rng.choice([0, 1, 2, 7]), rng.randrange(1 << 30)])
        elif r < 0.55:
            vals.append(["random", rng.choice([12, 16, 17, 24, 32, 33, 64, 100, 245]), rng.randrange(1 << 30)])
        elif r < 0.65:
            vals.append(["random", rng.choice([1000, 5000, 70000] if rng.random() < 0.3 else [300, 1000]), rng.randrange(1 << 30)])
        else:
            vals.append(["repeat", rng.choice([64, 96, 256, 1024]) * rng.choice([1, 1, 16, 80 if rng.random() < 0.3 else 2]), rng.choice([0, 1, 16])])
    steps = []
    for _ in range(rng.choice([5, 10, 16])):
        o = gen.pick(rng, {"file": 4, "string": 1.5, "enc": 4, "blob": 3, "load": 1, "show": 0.7, "restart": 0.4, "power": 0.4, "clock": 0.3, "threads": 0.6, "dec": 2, "open": 1})
        s = {"o": o, "k": rng.randrange(6), "to": rng.randrange(6), "v": rng.randrange(len(vals)), "slot": rng.randrange(3),
             "w": rng.randrange(len(WORDS)) if rng.random() < 0.85 else -1 - rng.randrange(len(SHORT)), "cls": rng.randrange(3), "x": rng.randrange(1 << 20),
             "nick": rng.choice([None, None, None, "", "nick", "n" * 9000, "w"])}
        if rng.random() < 0.15:
            s["to"] = s["k"]
        if o == "power":
            s["p"] = [rng.choice([0, 1, 99]), rng.randrange(1 << 12), [rng.randrange(4), rng.randrange(5000)] if rng.random() < 0.5 else None]
        elif o == "clock":
            s["d"] = rng.choice([-1e8, 3600.0, 1e9])
        elif o == "threads":
            s["ops"] = [[[rng.choice(["file", "string", "enc", "blob"]), rng.randrange(6), rng.randrange(len(vals)), rng.randrange(len(WORDS)), rng.randrange(3)]
                         for _ in range(rng.choice([1, 2]))] for _ in range(rng.choice([2, 3]))]
        elif o in ("file", "string", "enc", "blob", "load", "dec", "open") and rng.random() < 0.5:
            r = rng.random()
            if r < 0.4:
                s["rng"] = [rng.choice([0, 0, 1, 1, 2, 3, 5]), rng.choice([1, 1, 2, None])]
            elif r < 0.65 or o not in ("file", "load"):
                s["f"] = [{"s": "line", "n": rng.randrange(60 if o == "file" else 25), "e": rng.choice(["mem", "mem", "intr", "crash"])}]
            elif r < 0.9:
                s["f"] = [{"s": "fs", "on": rng.choice(["any", "any", "write", "fsync", "close", "create", "rename", "stat"]), "n": int(rng.expovariate(0.35)),
                           "k": rng.choice(["before", "after", "partial"]), "e": rng.choice(["crash", "nospc", "io", "io", "perm", "intr", "mem", "mfile"]),
                           "c": rng.randrange(4096), "len": rng.choice([1, 2, 50])}]
            else:
                s["cap"] = rng.choice([0, 1, 50, 500, 1500, 2200])
        steps.append(s)
    return gen.times(rng, {"cfg": {}, "keys": [], "vals": [], "plain": vals, "steps": steps,
                           "sched": {"mode": "seed", "seed": rng.randrange(1 << 40), "lines": True, "p": rng.choice([0.1, 0.3])}})


def plaintext(kind, n, x):
    if kind == "repeat":
        return [b"\0", b"A", b"sixteen  letters"][{0: 0, 1: 1}.get(x, 2)] * (n // (16 if x == 16 else 1))
    out = b""
    while len(out) < n:
        out += hashlib.blake2b(b"plain %d %d" % (x, len(out))).digest()
    return out[:n]


def damaged(m, x):
    """A message with one digit of a field changed, or one character of anything."""
    spans = [f.span(1) for f in re.finditer(rb'"([0-9a-f]{16,})"', m)]
    if not spans or x % 4 == 0:
        x %= len(m)
        return m[:x] + bytes([m[x] ^ 1]) + m[x + 1:]
    a, b = spans[x // 4 % len(spans)]
    x = a + x // 16 % (b - a)
    return m[:x] + b"%x" % (int(m[x: x + 1], 16) ^ 1) + m[x + 1:]


def peel(data, depth=3):
    """What an eavesdropper makes of some bytes: themselves and what is written in them in another notation."""
    seen, todo = {}, [(data, 0)]
    while todo:
        b, d = todo.pop()
        if b in seen or len(b) < 8:
            continue
        seen[b] = d
        if d >= depth:
            continue
        flat = re.sub(rb"\s|\\n|\\r", b"", b)
        for m in HEX.findall(flat):
            todo.append((bytes.fromhex(m[: len(m) // 2 * 2].decode()), d + 1))
            if len(m) % 2:
                todo.append((bytes.fromhex(m[1:].decode()), d + 1))
        for m in B64.findall(flat):
            if HEX.fullmatch(m):
                continue
            m = m.rstrip(b"=").replace(b"-", b"+").replace(b"_", b"/")
            for off in range(4):
                r = m[off:]
                r = r[: len(r) // 4 * 4] if len(r) % 4 == 1 else r + b"=" * (-len(r) % 4)
                with contextlib.suppress(ValueError):
                    todo.append((base64.b64decode(r), d + 1))
        for m in DEC.findall(b):
            n = int(m[:4000])
            todo.append((n.to_bytes(n.bit_length() // 8 + 1, "big"), d + 1))
        if b"\\" in b:
            with contextlib.suppress(ValueError):
                todo.append((json.dumps(json.loads(b), ensure_ascii=False).encode("utf-8", "surrogatepass"), d + 1))
    return list(seen)


_PARTS = {}


def key_parts(k):
    """Telling pieces of private key k."""
    if k not in _PARTS:
        r = keyworld.rsa(k)
        parts = []
        for x in (r.d, r.p, r.q, r.d % (r.p - 1), r.d % (r.q - 1)):
            b = x.to_bytes((x.bit_length() + 7) // 8, "big")
            parts += [b[j: j + 12] for j in range(0, len(b) - 12, 12)]
            b = b[::-1]
            parts += [b[j: j + 12] for j in range(0, len(b) - 12, 12)]
        _PARTS[k] = parts
    return _PARTS[k]


class Disk(SimFS):
    """A disk that keeps every state its files were in."""

    def __init__(self, sim):
        self.states = {}
        super().__init__(sim)

    def write(self, fd, data):
        d = self.fds.get(fd)
        try:
            return super().write(fd, data)
        finally:
            if d is not None:
                self.states[bytes(d.ino.data)] = None


def fields(x):
    """All byte strings in a structure of JSON."""
    if isinstance(x, dict):
        for k in x:
            yield from fields(x[k])
    elif isinstance(x, list):
        for v in x:
            yield from fields(v)
    elif isinstance(x, str):
        yield x.encode("utf-8", "surrogatepass")
        with contextlib.suppress(ValueError):
            yield bytes.fromhex(x)


def run(sim, plan):
    simfs.install()
    sys.unraisablehook = lambda *a: None
    fs = Disk(sim)
    P = [sim.P]
    vals = [plaintext(*v) for v in plan["plain"]]
    chosen = {"", "\0"}  # every passphrase used so far, short ones too
    words = set()  # passphrases and passwords used so far
    used = set()  # keys used so far
    said = set()  # plain texts encrypted so far
    clean = set()  # what has been looked through
    under = {}  # file -> its passphrase
    CLS = ["RsaKeyPair", "RsaAuthKeyPair", "RsaEncKeyPair"]

    def word(n):
        w = WORDS[n] if n >= 0 else SHORT[-n - 1]
        chosen.add(w)
        if n < 0:
            sim.probe("odd-passphrase")
        if len(w) >= 10:
            words.add(w)
        return w

    def look(data, where, own=()):
        """No secret can be seen in some bytes."""
        if isinstance(data, str):
            data = data.encode("utf-8", "surrogatepass")
        mark = (data, len(words), len(used), len(said))
        if mark in clean:
            return
        clean.add(mark)
        for b in peel(data):
            for k in used:
                for part in key_parts(k):
                    if part in b:
                        sim.fail("private-key", "%s shows a part of the private key of party %d" % (where, k))
            for w in words:
                if w.encode() in b or w.encode("utf-16-le") in b:
                    sim.fail("passphrase", "%s shows the passphrase or password %r" % (where, w))
            for v in said:
                if len(v) < 12 or len(set(v[:64])) == 1:
                    continue  # a run of one byte may be anything, blocks lost with the power for one
                if len(v) > 300:
                    cuts = [0, 1, 16, len(v) // 2, len(v) - 16]
                else:
                    cuts = range(len(v) - 11)
                for j in cuts:
                    if v[j: j + 12] in b:
                        sim.fail("plain-text", "%s shows %d or more bytes of a plain text of %d bytes, from byte %d on" % (where, 12, len(v), j))

    def broken(nonce, tag, ct, seen, extra=(), secret=None):
        """The plain text, if what can be seen is the key."""
        tried = set()
        for x in list(seen) + [b"", nonce, tag] + list(extra):
            if x == secret:
                continue
            h = hashlib.sha256(x).digest()
            tried |= {x[:16], x[-16:], x[:32], x[-32:], h, h[:16], hashlib.md5(x).digest()}
        tried = {c for c in tried if len(c) in (16, 32)}
        tried |= {bytes(16), bytes(32)}
        for c in sorted(tried):
            with contextlib.suppress(ValueError):
                return AES.new(c, AES.MODE_EAX, nonce).decrypt_and_verify(ct, tag)
        return None

    def blocks(ct, v, where):
        if len(v) >= 64 and len(set(v[:64])) < 17 and len(ct) >= len(v):
            sim.probe("repetitive")
            for off in (0, len(ct) % 16):
                bs = [ct[j: j + 16] for j in range(off, len(ct) - 15, 16)]
                if len(set(bs)) != len(bs):
                    sim.fail("repeats", "%s of %d repetitive bytes repeats itself" % (where, len(v)))

    def look_message(m, v, where, pair):
        look(m, where)
        try:
            q = json.loads(m)
            nonce, tag, ct = (bytes.fromhex(q[x]) for x in ("nonce", "tag", "ciphertext"))
        except (ValueError, KeyError, TypeError):
            return
        with RNG.aside():
            got = broken(nonce, tag, ct, set(fields(q)) - {ct, ct.hex().encode()}, [keyworld.pub(k) for k in pair])
        if got is not None:
            sim.fail("opens", "%s of %d bytes opens with what it contains itself or what everybody knows" % (where, len(v)))
        blocks(ct, v, where)

    def look_blob(b, v, where, w):
        look(b, where)
        if len(b) == 32 + len(v):
            with RNG.aside():
                got = broken(b[:16], b[16:32], b[32:], [b[:32], b[32:64]] + [x.encode() for x in SHORT[:4] + ["password"]], secret=w.encode())
            if got is not None:
                sim.fail("opens", "%s of %d bytes opens with what it contains itself" % (where, len(v)))
        blocks(b[32:], v, where)

    def look_key(text, where):
        look(text, where)
        try:
            q = json.loads(text)
            fs_ = sorted(set(fields(q)))
        except ValueError:
            return
        private = q.get("private_key") if isinstance(q, dict) else None
        try:
            der = bytes.fromhex(private)
        except (ValueError, TypeError):
            return
        with RNG.aside():
            for pw in [None, "None", "password", "passphrase"] + [x for x in fs_ if len(x) < 300][:4]:
                if pw is not None and (pw if isinstance(pw, str) else pw.decode("utf-8", "replace")).rstrip("\0") in chosen:
                    continue
                try:
                    r = RSA.import_key(der, passphrase=pw)
                except (ValueError, IndexError, TypeError):
                    continue
                if r.has_private():
                    sim.fail("opens", "%s opens %s" % (where, "without a passphrase" if pw is None else "with %s, which it contains" % short(pw)))

    def look_disk(own=None):
        for data in list(fs.states):
            look_key(data.decode("utf-8", "replace"), "a file")
        fs.states.clear()

    def error(out, what):
        e, seen = out.exc, set()
        while e is not None and id(e) not in seen:
            seen.add(id(e))
            # (an encoding error carries the text it is about, but does not show it)
            look("%s %r" % (e, () if isinstance(e, UnicodeError) else getattr(e, "args", ())), "the error of " + what)
            e = e.__cause__ or e.__context__
        sim.probe("error")

    def done(o, out, v, w):
        """What came of an operation (w: its passphrase, or the two parties)."""
        if not out.ok:
            if out.exc is not None:
                error(out, {"file": "saving a key pair", "string": "saving a key pair", "enc": "encrypting", "blob": "encrypting", "load": "loading", "open": "loading", "dec": "decrypting"}[o])
        elif o == "string":
            sim.probe("key-string")
            look_key(out.value, "a saved key string")
        elif o == "enc":
            sim.probe("message")
            look_message(out.value, v, "a message", w)
        elif o == "blob":
            sim.probe("blob")
            look_blob(out.value, v, "an encrypted blob", w)

    def party(k, cls, nick, w=None):
        used.add(k)
        return keyworld.party(P[0], k, CLS[cls], "party" if nick in (None, "w") else nick)

    def path(slot):
        return "/simdisk/key%d.json" % slot

    printed = io.StringIO()
    with contextlib.redirect_stdout(printed), contextlib.redirect_stderr(printed):
        for s in plan["steps"]:
            o = s["o"]
            sim.ops[o] += 1
            v = vals[s["v"]]
            if o in ("file", "string", "enc", "blob", "load", "dec", "open", "show"):
                w = word(s["w"])
                if o in ("enc", "dec"):
                    cls = [0, 2, 0][s["cls"]]
                else:
                    cls = s["cls"]
                kp = party(s["k"], cls, s["nick"])
                if o == "enc" and s["to"] == s["k"]:
                    sim.probe("to-itself")
                fn = None
                if o == "file":
                    fn = lambda: kp.to_key_file(path(s["slot"]), w)
                elif o == "string":
                    fn = lambda: kp.to_key_string(w)
                elif o == "enc":
                    said.add(v)
                    fn = lambda: kp.encrypt(v, keyworld.pub(s["to"]))
                elif o == "blob":
                    said.add(v)
                    fn = lambda: P[0].Utils.encrypt(v, w)
                elif o == "load":
                    if s["slot"] in under and s["x"] % 4:
                        w = under[s["slot"]]
                    fn = lambda: P[0].RsaKeyPair.from_key_file(path(s["slot"]), w)
                elif o == "open":
                    text = sim.call(kp.to_key_string, w).value
                    if text is None:
                        continue
                    if s["slot"]:
                        w = keyworld.near_password(w, s["x"] % 997, s["x"] // 997)
                        chosen.add(w)
                        if len(w) >= 10:
                            words.add(w)
                    if s["slot"] == 2:
                        # (not in the private key: what Crypto says about damaged DER is not pymt's)
                        x = s["x"] % max(1, text.find('"private_key"'))
                        text = text[:x] + chr(ord(text[x]) ^ 1) + text[x + 1:]
                    fn = lambda: type(kp).from_key_string(text, w) and None
                elif o == "dec":
                    said.add(v)
                    m = sim.call(party(s["to"], 0, None).encrypt, v, keyworld.pub(s["k"])).value
                    if m is None:
                        continue
                    if s["slot"]:
                        # damaged on the way
                        m = damaged(m, s["x"])
                    if s["v"] % 2:
                        b = sim.call(P[0].Utils.encrypt, v, w).value
                        if b is None:
                            continue
                        x = s["x"] % len(b)
                        b = b[:x] + bytes([b[x] ^ 1]) + b[x + 1:]
                        fn = lambda: P[0].Utils.decrypt(b, w if s["slot"] else w + "?") and None
                    else:
                        fn = lambda: kp.decrypt(m, keyworld.pub(s["to"])) and None
                else:
                    fn = lambda: (str(kp), repr(kp), "%s" % [kp])
                if s.get("cap") is not None:
                    fs.capacity = fs.used() + s["cap"]
                if s.get("rng"):
                    RNG.arm(*s["rng"])
                f0 = sim.fired()
                with Faults(sim, {"fs": fs}, s.get("f")):
                    out = sim.call(fn)
                RNG.disarm()
                fs.capacity = None
                hit = sim.fired() > f0
                sim.log(o, str(s["k"]), len(v), out.ok, out.err or "", hit)
                if hit:
                    sim.probe("rng-failed" if s.get("rng") else "crash" if out.crashed or fs.dead else "aborted")
                if o == "file":
                    sim.probe("file" if out.ok else "file-failed")
                    if out.ok:
                        under[s["slot"]] = w
                    if len([p for p in fs.files() if "key" in p]) > len({path(j) for j in range(3)} & set(fs.files())):
                        sim.probe("temporary")
                if len(v) < 12 and o in ("enc", "blob"):
                    sim.probe("tiny")
                if len(v) > 60000 and o in ("enc", "blob"):
                    sim.probe("big")
                if o == "load" and out.ok:
                    sim.probe("loaded")
                if o == "show" and out.ok:
                    sim.probe("repr")
                    for x in out.value:
                        look(x, "the text form of a key pair")
                if out.crashed or fs.dead:
                    fs.process_crash()
                    P[0] = seams.load_pymt()
                    sim.fault("process-death")
                else:
                    done(o, out, v, (s["k"], s["to"]) if o == "enc" else w)
            elif o == "restart":
                P[0] = seams.load_pymt()
                sim.fault("restart")
                sim.probe("restart")
            elif o == "clock":
                CLOCK.set(max(0.0, CLOCK.now + s["d"]))
                sim.fault("clock-jump")
            elif o == "power":
                m, keep, tear = s["p"]
                fs.power_loss(m, lambda i: keep >> (i % 12) & 1, tear)
                P[0] = seams.load_pymt()
                sim.fault("power-loss")
                sim.probe("power-loss")
                sim.log("power-loss", str(len(fs.files())))
            elif o == "threads":
                got = []
                todo = []
                for ops in s["ops"]:
                    mine = []
                    for what, k, vi, wi, slot in ops:
                        kp, v, w = party(k, 0, None), vals[vi], word(wi)
                        said.add(v)
                        mine.append((what, v, (k, k + 1) if what == "enc" else w, {"file": lambda kp=kp, w=w, slot=slot: kp.to_key_file(path(slot), w),
                                                  "string": lambda kp=kp, w=w: kp.to_key_string(w),
                                                  "enc": lambda kp=kp, v=v, k=k: kp.encrypt(v, keyworld.pub(k + 1)),
                                                  "blob": lambda v=v, w=w: P[0].Utils.encrypt(v, w)}[what]))
                    todo.append(mine)

                def task(mine):
                    def body():
                        for what, v, w, fn in mine:
                            got.append((what, sim.call(fn), v, w))
                    return body

                sim.run_tasks([task(m) for m in todo])
                sim.probe("threads")
                for what, out, v, w in got:
                    sim.log("thread", what, out.ok, out.err or "")
                    done(what, out, v, w)
            look_disk()
            for p in fs.files():
                look(fs.peek(p), "a file")
    look(printed.getvalue(), "what is printed")
    simfs.CUR[0] = None
