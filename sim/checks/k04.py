"""K04: a damaged key file or string never loads as a different key."""
import base64
import json

from .. import gen, keyworld, seams, simfs
from ..kernel import short
from ..simfs import SimFS
from ..storage import Faults

RUNS = {"quick": 2800, "thorough": 60000}
RULE = ("Key pairs saved to simulated files and strings are damaged (bits flipped, blocks lost, zeroed, repeated, exchanged, texts "
        "truncated or mixed with another key's, fields exchanged) and loaded with right and wrong passphrases, over restarts, failing "
        "reads and interrupts; a load gives the saved key pair or raises.")
REAL = ["pymt.keypairs", "pymt.utils", "Crypto", "json", "io buffering"]
STUB = ["file system (SimFS)", "random source (seeded)", "clock", "thread scheduler", "keys (fixed 1024-bit keys)", "PBKDF2 rounds lowered to 1000"]
ASSUME = ["passphrases that only differ by trailing NULs are the same to PBKDF2 and not distinguished",
          "the nickname is not protected: damage to it alone may go unnoticed"]
PROBES = ("exact", "rejected", "harmless", "wrong-pass", "field-mixed", "blocks-mixed", "whole-other", "read-fault", "file", "string",
          "odd-nickname", "bits", "inner", "resaved", "signed", "decrypted")
NICKS = ["home", "", "ключ", "a\"b\\c\n", "\ud800x", "x" * 300, "public_key", "{}", "null"]
PASSES = ["correct horse", "Zebra 77 lines\t", "a", " ", "x" * 71 + "yz", "pässword", "p" * 200, "0", "{}", "\n", "two\0parts"]
KINDS = ["flip", "flip", "flip2", "trunc", "zero", "lose", "dup", "swapb", "mixhead", "mixtail", "mixblk", "field", "field", "inner", "body",
         "inner", "innertrunc", "null", "drop", "ext", "retype", "garble"]
FIELDS = ["nickname", "public_key", "private_key"]


def plan(rng, i, tier):
    steps = []
    for _ in range(rng.choice([1, 2, 3])):
        form = rng.choice(["file", "string"])
        s = {"o": form, "a": rng.randrange(8), "b": rng.randrange(8), "cls": rng.choice(["RsaKeyPair", "RsaAuthKeyPair", "RsaEncKeyPair"]),
             "nick": rng.randrange(len(NICKS)), "pw": rng.randrange(len(PASSES)), "samepw": rng.random() < 0.7,
             "as": rng.choice(["RsaKeyPair", "RsaKeyPair", "RsaAuthKeyPair", "RsaEncKeyPair"]), "loads": []}
        for _ in range(rng.choice([2, 4, 6])):
            l = {"x": [[rng.choice(KINDS), rng.randrange(1 << 24), rng.randrange(1 << 24)] for _ in range(rng.choice([0, 1, 1, 1, 1, 2]))]}
            r = rng.random()
            if r < 0.2:
                l["pw"] = [rng.randrange(16), rng.randrange(1 << 16)]
            elif r < 0.3:
                l["f"] = [gen.line_fault(rng, 14)] if rng.random() < 0.5 or form == "string" else [
                    {"s": "fs", "on": rng.choice(["any", "read", "open"]), "n": rng.randrange(3), "k": rng.choice(["before", "after", "partial"]),
                     "e": rng.choice(["io", "perm", "mfile", "mem", "intr"]), "len": 1}]
            if rng.random() < 0.15:
                l["resave"] = 1
            s["loads"].append(l)
        steps.append(s)
    return {"cfg": {}, "keys": [], "vals": [], "steps": steps,
            "sched": {"mode": "seed", "seed": rng.randrange(1 << 40), "lines": True, "p": 0}}


def wrongpass(pw, kind, n):
    if kind >= 9:
        w = keyworld.near_password(pw, n, n >> 4)
    else:
        w = [pw + " ", pw[:-1], pw.swapcase(), pw + pw, "", pw[::-1], "password", pw.strip() + "x", chr(33 + n % 200) + pw[1:]][kind]
    return w if w.rstrip("\0") != pw.rstrip("\0") else pw + "!"


def damage(kind, a, b, text, other):
    """One damage of the stored text (bytes)."""
    x, y = bytearray(text), bytearray(other)
    n = len(x)
    if not n:
        return bytes(x)
    if kind == "flip":
        x[(a // 8) % n] ^= 1 << (a % 8)
    elif kind == "flip2":
        x[a % n] ^= 1 + b % 255
        x[b % n] ^= 1 + a % 255
    elif kind == "trunc":
        x = x[: a % n]
    elif kind == "zero":
        p, w = a % n, 1 + b % 64
        x[p: p + w] = bytes(len(x[p: p + w]))
    elif kind == "lose":
        p, w = a % n, 1 + b % 64
        del x[p: p + w]
    elif kind == "dup":
        p, w = a % n, 1 + b % 400
        x[p:p] = x[p: p + w]
    elif kind == "swapb":
        w = [8, 16, 32, 64, 128, 512][b % 6]
        p, q = sorted([a % n // w * w, (a // 7) % n // w * w])
        x[p: p + w], x[q: q + w] = x[q: q + w], x[p: p + w]
    elif kind == "mixhead":
        x = x[: a % n] + y[a % n:]
    elif kind == "mixtail":
        x = y[: a % n] + x[a % n:]
    elif kind == "mixblk":
        w = [8, 16, 32, 64, 128, 512, 1024][b % 7]
        p = a % n // w * w
        x[p: p + w] = y[p: p + w]
    elif kind == "ext":
        x += bytes([32 + a % 90]) * (1 + b % 20) if a % 2 else y
    elif kind == "garble":
        x = bytearray(bytes((i * a + b) % 256 for i in range(a % 64)))
    else:
        try:
            d, e = json.loads(bytes(x)), json.loads(bytes(y))
            f = FIELDS[a % 3]
            if kind == "field":
                for j, g in enumerate(FIELDS):
                    if (1 + b % 7) >> j & 1:
                        d[g] = e[g]
            elif kind == "inner":
                h = bytearray(bytes.fromhex(d["private_key"]))
                h[(a // 8) % len(h)] ^= 1 << (a % 8)
                if b % 3 == 0:
                    h[b % len(h)] ^= 1 << (b % 8)
                d["private_key"] = h.hex()
            elif kind == "body":
                # below the text form of the private key
                head, *lines, tail = bytes.fromhex(d["private_key"]).decode("ascii").split("\n")
                h = bytearray(base64.b64decode("".join(lines)))
                h[(a // 8) % len(h)] ^= 1 << (a % 8)
                if b % 3 == 0:
                    h[b % len(h)] ^= 1 << (b % 8)
                d["private_key"] = "\n".join([head, base64.b64encode(h).decode(), tail]).encode().hex()
            elif kind == "innertrunc":
                h = bytes.fromhex(d["private_key"])
                d["private_key"] = (h[: a % len(h)] if b % 2 else h[: a % len(h)] + bytes.fromhex(e["private_key"])[a % len(h):]).hex()
            elif kind == "null":
                d[f] = [None, 0, "", [], {}, True, "00", d[FIELDS[(a + 1) % 3]]][b % 8]
            elif kind == "drop":
                del d[f]
            elif kind == "retype":
                # the private key's place holds only the public key, in the clear
                d["private_key"] = (d["public_key"] if b % 2 else e["public_key"]).encode().hex()
            x = bytearray(json.dumps(d).encode())
        except (ValueError, KeyError, TypeError, AttributeError, IndexError, ZeroDivisionError):
            pass
    return bytes(x)


def run(sim, plan):
    simfs.install()
    fs = SimFS(sim)
    P = sim.P
    for s in plan["steps"]:
        o = s["o"]
        sim.ops[o] += 1
        sim.probe(o)
        nick, pw = NICKS[s["nick"]], PASSES[s["pw"]]
        if nick in ("", "\ud800x", "a\"b\\c\n", "ключ"):
            sim.probe("odd-nickname")
        a, b = s["a"], s["b"] if s["b"] != s["a"] else (s["b"] + 1) % 8
        kp = keyworld.party(P, a, s["cls"], "n")
        kp.nickname = nick
        other = keyworld.party(P, b, s["cls"], "other")
        pwb = pw if s["samepw"] else "another passphrase"
        path, path2 = "/simdisk/a.key", "/simdisk/b.key"
        if o == "file":
            kp.to_key_file(path, pw)
            other.to_key_file(path2, pwb)
            text, otext = fs.peek(path), fs.peek(path2)
        else:
            text = kp.to_key_string(pw).encode("utf-8", "surrogatepass")
            otext = other.to_key_string(pwb).encode()
        ref = json.loads(otext)
        for l in [{"x": []}] + s["loads"]:
            now = text
            for kind, x, y in l["x"]:
                now = damage(kind, x, y, now, otext)
                sim.fault("damage-" + kind)
            given = wrongpass(pw, *l["pw"]) if l.get("pw") else pw
            cls = getattr(P, s["as"])
            fired0 = sim.fired()
            if o == "file":
                fs.poke(path, now)
                with Faults(sim, {"fs": fs}, l.get("f")):
                    out = sim.call(cls.from_key_file, path, given)
            else:
                with Faults(sim, {"fs": fs}, l.get("f")):
                    out = sim.call(cls.from_key_string, now.decode("utf-8", "surrogateescape"), given)
            hit = sim.fired() > fired0
            sim.log(o, out.ok, out.err or "", str(len(now)), "pw" if l.get("pw") else "")
            if hit:
                sim.probe("read-fault")
            clean = now == text and not l.get("pw")
            if l.get("pw"):
                sim.probe("wrong-pass")
            if not out.ok:
                if clean and not hit:
                    sim.fail("undamaged", "an undamaged %s does not load: %r" % (o, out))
                sim.probe("rejected")
                continue
            got = out.value
            if l.get("pw"):
                # nothing in this file is readable without the passphrase, unless the damage put other data in
                if now == text or same_private(now, text):
                    sim.fail("wrong-passphrase", "a %s saved with passphrase %r loads with %r" % (o, pw, given))
            allowed = {keyworld.pub(a)}
            try:
                d = json.loads(now)
                if d["public_key"] == ref["public_key"] and d["private_key"] != json.loads(text)["private_key"]:
                    allowed.add(keyworld.pub(b))  # this is the other key's record now, perhaps a little damaged
                    sim.probe("whole-other")
                if now != text:
                    if any(k in ("field", "null") for k, _, _ in l["x"]):
                        sim.probe("field-mixed")
                    elif any(k.startswith("mix") or k == "innertrunc" for k, _, _ in l["x"]):
                        sim.probe("blocks-mixed")
                    if any(k == "inner" for k, _, _ in l["x"]):
                        sim.probe("inner")
                    if any(k.startswith("flip") for k, _, _ in l["x"]):
                        sim.probe("bits")
            except (ValueError, KeyError, TypeError):
                pass
            out = sim.call(lambda: got.public_key)
            if not out.ok or out.value not in allowed:
                which = [k for k in range(10) if out.ok and keyworld.pub(k) == out.value]
                sim.fail("other-key", "a %s of key %d, damaged by %s, loads as %s" % (
                    o, a, [k for k, _, _ in l["x"]], "key %s" % which[0] if which else short(out.value) if out.ok else repr(out)))
            me = a if out.value == keyworld.pub(a) else b
            if clean:
                sim.probe("exact")
                if got.nickname != nick:
                    sim.fail("nickname", "saved nickname %s, loaded %s" % (short(nick), short(got.nickname)))
                if type(got) is not cls:
                    sim.fail("class", "%s.from_key_%s gives a %s" % (s["as"], o, type(got).__name__))
                for left, right in ((kp, got), (got, kp)):
                    e = sim.call(lambda: left == right)
                    if not e.ok or (s["as"] == s["cls"] and e.value is not True):
                        sim.fail("equality", "a loaded key pair does not equal the saved one: %r" % e)
                h1, h2 = sim.call(hash, kp), sim.call(hash, got)
                if not (h1.ok and h2.ok) or (kp == got and h1.value != h2.value):
                    sim.fail("hash", "equal key pairs hash to %r and %r" % (h1, h2))
            else:
                sim.probe("harmless")
            # what it signs is valid for its public key, what was sent to it can be read
            if s["as"] != "RsaEncKeyPair":
                out = sim.call(got.sign, b"probe")
                if out.ok:
                    sim.probe("signed")
                    if not valid(me, b"probe", out.value):
                        sim.fail("bad-signature", "a %s, damaged by %s, loads and signs invalidly" % (o, [k for k, _, _ in l["x"]]))
                else:
                    sim.fail("sign", "a %s, damaged by %s, loads and cannot sign: %r" % (o, [k for k, _, _ in l["x"]], out))
            if s["as"] != "RsaAuthKeyPair" and clean:
                snd = keyworld.party(P, b, "RsaKeyPair", "s")
                out = sim.call(got.decrypt, snd.encrypt(b"letter", keyworld.pub(a)), keyworld.pub(b))
                if not out.ok or out.value != b"letter":
                    sim.fail("decrypt", "a loaded key pair cannot read what was sent to it: %r" % out)
                sim.probe("decrypted")
            if l.get("resave") and me == a and given == pw:
                # saved again, loaded by a new process
                out = sim.call(got.to_key_string, pw)
                if out.ok:
                    sim.probe("resaved")
                    Q = seams.load_pymt()
                    again = sim.call(Q.RsaKeyPair.from_key_string, out.value, pw)
                    if not again.ok or again.value.public_key != keyworld.pub(a) or again.value.nickname != got.nickname:
                        sim.fail("resave", "a loaded and resaved key pair loads as %r" % again)
                elif clean:
                    sim.fail("resave", "a loaded key pair cannot be saved: %r" % out)
    simfs.CUR[0] = None


def same_private(x, y):
    """Whether two texts hold the same encrypted private key."""
    try:
        return bytes.fromhex(json.loads(x)["private_key"]) == bytes.fromhex(json.loads(y)["private_key"])
    except (ValueError, KeyError, TypeError):
        return False


def valid(k, msg, sig):
    from Crypto.Hash import SHA256
    from Crypto.Signature import pkcs1_15

    try:
        pkcs1_15.new(keyworld.rsa(k)).verify(SHA256.new(msg), sig)
        return True
    except (ValueError, TypeError):
        return False
