"""Generators for keys, values, histories and faults."""
from . import ref

WORDS = [b"a", b"do", b"dog", b"doge", b"dogecoin", b"horse", b"house", b"h", b"cat", b"ca", b"car",
         b"cart", b"wolf", b"wolves", b"\x00", b"\x00\x00", b"key", b"key1", b"key10", b"key11"]


def keys(rng, n, family=None):
    """About n distinct keys of one family; often prefixes and near misses of one another."""
    fam = family or rng.choice(
        ["nested", "nibble", "nibble", "random", "hash32", "long", "text", "seq", "mixed"] if rng.random() < 0.95 else ["deep", "huge"]
    )
    out = []

    def add(k):
        if k not in out:
            out.append(k)

    tries = 0
    base = bytes(rng.randrange(256) for _ in range(rng.choice([3, 8, 31, 64, 70])))
    while len(out) < n and tries < n * 20:
        tries += 1
        f = fam if fam != "mixed" else rng.choice(
            ["nested", "nibble", "random", "hash32", "long", "text", "seq"])
        if f == "nested":
            b = bytes(rng.choice(b"\x11\x12\x21\xff") for _ in range(rng.randrange(0, 6)))
            add(b)
            if rng.random() < 0.5 and b:
                add(b[: rng.randrange(len(b))])
        elif f == "nibble":
            add(bytes(rng.choice([0x00, 0x01, 0x10, 0x11, 0x1F, 0xF1]) for _ in range(rng.randrange(1, 5))))
        elif f == "random":
            add(bytes(rng.randrange(256) for _ in range(rng.randrange(1, 9))))
        elif f == "hash32":
            k = bytearray(base[:31].ljust(31, b"\x07") + b"\x55")
            if rng.random() < 0.6:
                k[rng.randrange(28, 32)] ^= 1 << rng.randrange(8)
            else:
                k = bytearray(rng.randrange(256) for _ in range(32))
            add(bytes(k))
        elif f == "long":
            k = bytearray((base * 30)[: rng.choice([64, 65, 72])])
            k[-1 - rng.randrange(3)] ^= rng.choice([1, 2, 16, 32, 0x80])
            add(bytes(k) if rng.random() < 0.9 else bytes(k[: rng.randrange(len(k))]))
        elif f == "deep":  # each the beginning of the next
            k = (base * 60)[: rng.choice([1, 1, 2, 5]) * len(out) + 1]
            add(k if rng.random() < 0.8 else k[:-1] + bytes([k[-1] ^ rng.choice([1, 16])]))
        elif f == "huge":
            k = bytearray((base * 400)[: rng.choice([127, 128, 129, 255, 256, 300, 1000])])
            k[rng.choice([0, 1, -1, -2, len(k) // 2])] ^= rng.choice([0, 1, 16])
            add(bytes(k))
        elif f == "text":
            w = rng.choice(WORDS)
            add(w if rng.random() < 0.6 else w + rng.choice(WORDS))
        else:
            i = len(out)
            add(bytes([i & 255]) if n <= 200 and rng.random() < 0.8 else i.to_bytes(2, "big"))
    if rng.random() < 0.1:
        add(b"")
    rng.shuffle(out)
    return out


def tower(rng):
    """Keys each of which begins with the one before: a trie of more than 64 levels."""
    base = bytes(rng.randrange(256) for _ in range(rng.choice([1, 3, 80])))
    first, n = rng.choice([0, 1, 5]), rng.choice([34, 35, 40, 66, 70])
    out = [(base * 100)[:i] for i in range(first, first + n)]
    if rng.random() < 0.5:
        rng.shuffle(out)
    return out


def near(rng, ks, n):
    """Keys close to the given ones: prefixes, extensions, neighbours."""
    out = []
    for _ in range(n * 3):
        if len(out) >= n or not ks:
            break
        k = bytearray(rng.choice(ks))
        r = rng.randrange(5)
        if r == 0 and k:
            k = k[:-1]
        elif r == 1:
            k += bytes([rng.choice([0, 1, 0x10, 0x11, rng.randrange(256)])])
        elif r == 2 and k:
            k[rng.randrange(len(k))] ^= rng.choice([1, 0x10, 0x80, 0x0F, 0xF0])
        elif r == 3 and k:
            k = k[: rng.randrange(len(k))]
        else:
            k = bytearray(rng.randrange(256) for _ in range(rng.randrange(1, 5)))
        k = bytes(k)
        if k not in ks and k not in out:
            out.append(k)
    return out


def value(rng, big=False):
    r = rng.randrange(16)
    if r == 0:
        return bytes([rng.randrange(128)])
    if r == 1:
        return bytes([rng.randrange(128, 256)])
    if r == 2:
        return rng.choice([b"null", b"\x00", b"\x80", b"\xc0", b"1", b"\x00\x00"])
    if r == 3:
        return rnd(rng, rng.choice([31, 32, 33]))
    if r == 4:
        return rnd(rng, rng.choice([54, 55, 56, 57]))
    if r == 5:
        return rnd(rng, rng.choice([255, 256, 257, 300]))
    if r == 6:
        return ref.rlp_enc([rnd(rng, rng.randrange(1, 5)) for _ in range(rng.choice([1, 2, 17]))])
    if r == 7:
        return ref.keccak(rnd(rng, 3))
    if r == 8:
        return ref.rlp_enc([ref.hp([rng.randrange(16) for _ in range(rng.randrange(4))], rng.random() < 0.5),
                            rnd(rng, rng.choice([3, 32]))])
    if r == 9 and big:
        return rnd(rng, 1) * rng.choice([4096, 65535, 65536, 70000])
    if r < 13:
        return rnd(rng, rng.randrange(1, 30))
    return rnd(rng, rng.randrange(24, 60))


def rnd(rng, n):
    return rng.randbytes(n)


def values(rng, n, big=False):
    style = rng.choice(["mix", "mix", "tiny", "same", "large", "kin"])
    out = []
    for _ in range(n):
        if out and rng.random() < (0.8 if style == "kin" else 0.08):
            out.append(kin(rng, rng.choice(out[-4:])))
        elif style == "tiny":
            out.append(rnd(rng, rng.randrange(1, 4)))
        elif style == "same" and out and rng.random() < 0.6:
            out.append(rng.choice(out))
        elif style == "large":
            out.append(rnd(rng, rng.randrange(40, 90)))
        else:
            out.append(value(rng, big))
    if out and rng.random() < 0.05:
        out[rng.randrange(len(out))] = sized(rng, rng.choice([5000, 5000, 1 << 17])) or b"0"
    return out


def kin(rng, v):
    """A value that careless comparison, trimming or conversion takes for v: never empty, different from v unless by chance."""
    r = rng.randrange(11)
    if r == 10:
        return v[: rng.randrange(len(v))] or v * 2
    if r == 0:
        return b"\x00" * rng.choice([1, 1, 2]) + v
    if r == 1:
        return v + rng.choice([b"\x00", b" ", b"\n", b"\x00\x00"])
    if r == 2:
        return v.strip(b"\x00 \n") or v + b"\x00"
    if r == 3:
        return v[:-1] or v * 2
    if r == 4:
        return v[1:] or v * 2
    if r == 5:
        return v.swapcase()
    if r == 6:
        return v[::-1]
    if r == 7:
        return v + v
    b = bytearray(v)
    b[rng.choice([0, -1, rng.randrange(len(b))])] ^= rng.choice([1, 0x20, 0x80])
    return bytes(b)


def sized(rng, top=1 << 17):
    """A value whose length is at or next to a size where chunked or length-prefixed handling changes."""
    n = rng.choice([16, 32, 55, 56, 64, 86, 128, 245, 255, 256, 512, 1000, 1024, 2048, 4096, 8192, 10000, 16384, 32768, 65535, 65536, 100000, 131072])
    n = max(0, min(n, top) + rng.choice([-1, 0, 0, 1, 1, 7]))
    block = rnd(rng, 1 + rng.randrange(64))
    return (block * (n // len(block) + 1))[:n]


def huge(rng):
    """A value longer than buffers usually are."""
    block = rnd(rng, 1 + rng.randrange(64))
    n = rng.choice([1 << 18, 1 << 20, 1000000, 1 << 20]) + rng.choice([0, 1, 5, 4096])
    return (block * (n // len(block) + 1))[:n]


def hexes(bs):
    return [b.hex() for b in bs]


def unhex(hs):
    return [bytes.fromhex(h) for h in hs]


def pick(rng, weights):
    tot = sum(weights.values())
    x = rng.random() * tot
    for k, w in weights.items():
        x -= w
        if x < 0:
            return k
    return k


def store_fault(rng, s, write=True, errs=("store", "os", "key", "conn", "timeout", "mem", "val", "intr"), after=True):
    on = rng.choice(["any", "get", "set", "set", "write", "read"] if write else ["get", "read", "any"])
    k = "after" if after and rng.random() < 0.3 else "before"
    return {"s": s, "on": on, "n": int(rng.expovariate(0.45)), "k": k, "e": rng.choice(errs),
            "len": rng.choice([1, 1, 1, 2, 50])}


def line_fault(rng, span=120, errs=("mem", "mem", "intr")):
    return {"s": "line", "n": rng.randrange(span), "e": rng.choice(errs)}


def times(rng, plan):
    """Clock and zone of a run."""
    plan["t0"] = rng.choice([1_600_000_000.0, 1.5, 951_782_399.999, 1_709_164_799.25, 4_102_444_799.0,
                             rng.randrange(0, 2_000_000_000) + rng.random()])
    plan["tz"] = rng.choice(["UTC0", "UTC0", "EST5EDT,M3.2.0,M11.1.0", "IST-5:30", "NPT-5:45", "<+14>-14",
                             "<-12>12", "CET-1CEST,M3.5.0,M10.5.0/3"])
    plan["tick"] = rng.choice([0.0, 0.0, 0.001, 0.25])
    return plan
