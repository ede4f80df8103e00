"""Reference models, written independently of the code under test."""
import hashlib

from Crypto.Hash import keccak as _k


def keccak(b):
    return _k.new(digest_bits=256, data=b).digest()


# ---------------------------------------------------------------- RLP
def _len(n, off):
    if n < 56:
        return bytes([off + n])
    b = n.to_bytes((n.bit_length() + 7) // 8, "big")
    return bytes([off + 55 + len(b)]) + b


def rlp_enc(x):
    if isinstance(x, (bytes, bytearray)):
        if len(x) == 1 and x[0] < 0x80:
            return bytes(x)
        return _len(len(x), 0x80) + bytes(x)
    if isinstance(x, int):
        return rlp_enc(x.to_bytes((x.bit_length() + 7) // 8, "big"))
    body = b"".join(rlp_enc(i) for i in x)
    return _len(len(body), 0xC0) + body


class Bad(Exception):
    pass


def _dec(b, i):
    if i >= len(b):
        raise Bad("short")
    p = b[i]
    if p < 0x80:
        return b[i : i + 1], i + 1
    if p < 0xC0:
        if p < 0xB8:
            n, j = p - 0x80, i + 1
        else:
            ll = p - 0xB7
            n, j = int.from_bytes(b[i + 1 : i + 1 + ll], "big"), i + 1 + ll
        if j + n > len(b):
            raise Bad("short")
        return b[j : j + n], j + n
    if p < 0xF8:
        n, j = p - 0xC0, i + 1
    else:
        ll = p - 0xF7
        n, j = int.from_bytes(b[i + 1 : i + 1 + ll], "big"), i + 1 + ll
    end = j + n
    if end > len(b):
        raise Bad("short")
    out = []
    while j < end:
        v, j = _dec(b, j)
        out.append(v)
    if j != end:
        raise Bad("len")
    return out, end


def rlp_dec(b):
    v, j = _dec(bytes(b), 0)
    if j != len(b):
        raise Bad("trailing")
    return v


# ---------------------------------------------------------------- Merkle-Patricia trie
EMPTY = keccak(rlp_enc(b""))


def nibbles(k):
    out = []
    for c in k:
        out += [c >> 4, c & 15]
    return out


def hp(nib, leaf):
    f = 2 if leaf else 0
    if len(nib) % 2:
        nib = [f + 1] + list(nib)
    else:
        nib = [f, 0] + list(nib)
    return bytes(nib[i] * 16 + nib[i + 1] for i in range(0, len(nib), 2))


def unhp(b):
    if not isinstance(b, (bytes, bytearray)) or len(b) == 0:
        raise Bad("path")
    n = nibbles(b)
    flag = n[0]
    return (n[1:] if flag & 1 else n[2:]), bool(flag & 2)


class Trie:
    """The Merkle-Patricia trie of a dict, built from scratch: nodes by hash, root node."""

    def __init__(self, content, secure=False):
        self.nodes = {}
        items = [(nibbles(keccak(k) if secure else k), v) for k, v in content.items()]
        self.count = len(items)
        if not items:
            self.root_node = None
            self.root_raw = b""
            self.root_hash = EMPTY
            return
        self.root_node = self._build(sorted(items), 0)
        self.root_raw = rlp_enc(self.root_node)
        self.root_hash = keccak(self.root_raw)
        self.nodes[self.root_hash] = self.root_raw

    def _ref(self, node):
        raw = rlp_enc(node)
        if len(raw) < 32:
            return node
        h = keccak(raw)
        self.nodes[h] = raw
        return h

    def _build(self, items, d):
        if len(items) == 1:
            n, v = items[0]
            return [hp(n[d:], True), v]
        a, b = items[0][0], items[-1][0]
        p = d
        m = min(len(a), len(b))
        while p < m and a[p] == b[p]:
            p += 1
        if p > d:
            return [hp(a[d:p], False), self._ref(self._build(items, p))]
        val = b""
        slots = [[] for _ in range(16)]
        for n, v in items:
            if len(n) == d:
                val = v
            else:
                slots[n[d]].append((n, v))
        return [self._ref(self._build(s, d + 1)) if s else b"" for s in slots] + [val]


def root_hash(content, secure=False):
    return Trie(content, secure).root_hash


def establish(nodes, root, key):
    """What the nodes alone show about `key` (already hashed in secured mode) under `root`:
    ("present", value), ("absent", None) or ("unknown", None)."""
    db = {}
    for raw in nodes:
        if isinstance(raw, (bytes, bytearray)):
            db[keccak(bytes(raw))] = bytes(raw)
    path = nibbles(key)
    if root not in db:
        return "unknown", None
    try:
        node = rlp_dec(db[root])
        while True:
            if not isinstance(node, list):
                return "unknown", None
            if len(node) == 17:
                if not path:
                    v = node[16]
                    if isinstance(v, list):
                        return "unknown", None
                    return ("present", v) if v != b"" else ("absent", None)
                ref = node[path[0]]
                path = path[1:]
                if ref == b"":
                    return "absent", None
            elif len(node) == 2:
                p, leaf = unhp(node[0])
                if leaf:
                    if p == path:
                        if isinstance(node[1], list):
                            return "unknown", None
                        return "present", node[1]
                    return "absent", None
                if path[: len(p)] != p:
                    return "absent", None
                path = path[len(p) :]
                ref = node[1]
            else:
                return "unknown", None
            if isinstance(ref, list):
                node = ref
            elif len(ref) == 32:
                if ref not in db:
                    return "unknown", None
                node = rlp_dec(db[ref])
            else:
                return "unknown", None
    except (Bad, IndexError):
        return "unknown", None


# ---------------------------------------------------------------- data references
def data_ref(key, data):
    h = int.from_bytes(keccak(key + data), "big")
    return rlp_enc([b"FF", key, data, h])


def empt_root(content, secure=False):
    return root_hash({k: data_ref(k, v) for k, v in content.items()}, secure)


# ---------------------------------------------------------------- binary Merkle tree
def mt_leaf(v, hash_type, secure):
    return hashlib.new(hash_type, v).digest() if secure else bytes(v)


def mt_levels(leaves, hash_type, secure):
    lv = [[mt_leaf(v, hash_type, secure) for v in leaves]]
    while len(lv[-1]) > 1:
        cur = lv[-1]
        nxt = [
            hashlib.new(hash_type, cur[i] + cur[i + 1]).digest() for i in range(0, len(cur) - 1, 2)
        ]
        if len(cur) % 2:
            nxt.append(cur[-1])
        lv.append(nxt)
    return lv


def mt_root(leaves, hash_type, secure):
    return mt_levels(leaves, hash_type, secure)[-1][0]


def mt_proof(leaves, index, hash_type, secure):
    """[(side, digest)] for the leaf at index."""
    out = []
    for lv in mt_levels(leaves, hash_type, secure)[:-1]:
        sib = index ^ 1
        if sib < len(lv):
            out.append((b"left" if sib < index else b"right", lv[sib]))
        index //= 2
    return out


def mt_fold(leaf, path, hash_type):
    h = leaf
    for side, d in path:
        h = hashlib.new(hash_type, d + h if side == b"left" else h + d).digest()
    return h
