"""Pieces shared by the trie checks."""
from . import ref
from .gen import unhex
from .kernel import short


def reopen_root(t):
    """What a user saves to reopen a trie later."""
    return t.root() or t.root_hash()


def hashed(k, secure):
    return ref.keccak(k) if secure else k


def sim_keys(plan):
    return unhex(plan["keys"]), unhex(plan["vals"])


def check_root(sim, t, model, secure, tag="root"):
    got = t.root_hash()
    want = ref.root_hash(model, secure)
    if got != want:
        sim.fail(tag, "root hash is %s, the reference root of the %d entries is %s" % (
            short(got), len(model), short(want)))
    return want


def read_key(sim, t, model, k, tag="read", how=0):
    """One fault-free read and membership test of k against the model."""
    get = (lambda: t.get(k)) if how % 2 == 0 else (lambda: t[k])
    has = (lambda: k in t) if how % 3 else (lambda: t.contains(k))
    o = sim.call(get)
    if k in model:
        if not o.ok:
            sim.fail(tag + "-lost", "reading present key %s %r, expected %s" % (short(k), o, short(model[k])))
        if o.value != model[k]:
            sim.fail(tag + "-wrong", "reading key %s returned %s, expected %s" % (
                short(k), short(o.value), short(model[k])))
    elif o.ok:
        sim.fail(tag + "-phantom", "reading absent key %s returned %s" % (short(k), short(o.value)))
    o = sim.call(has)
    if not o.ok:
        sim.fail(tag + "-membership", "membership test of key %s %r" % (short(k), o))
    if bool(o.value) != (k in model):
        sim.fail(tag + "-membership", "membership test of key %s answers %r, present: %r" % (
            short(k), o.value, k in model))


def audit(sim, t, model, keys, secure, tag="audit", root=True, how=0):
    if root:
        check_root(sim, t, model, secure, tag + "-root")
    for j, k in enumerate(keys):
        read_key(sim, t, model, k, tag, how + j)


def check_proofs(sim, t, model, k, secure, tag):
    """Fault-free proof of the right kind for k, established by the reference and accepted by t."""
    root = ref.root_hash(model, secure)
    hk = hashed(k, secure)
    if k in model:
        o = sim.call(t.get_proof_of_inclusion, k)
        if not o.ok:
            sim.fail(tag + "-noproof", "no inclusion proof for present key %s: %r" % (short(k), o))
        st, v = ref.establish(o.value.proof, root, hk)
        if st != "present" or v != model[k]:
            sim.fail(tag + "-badproof", "inclusion proof of %s does not establish it (%s)" % (short(k), st))
        r = sim.call(t.verify_proof_of_inclusion, o.value)
    elif model:
        o = sim.call(t.get_proof_of_exclusion, k)
        if not o.ok:
            sim.fail(tag + "-noproof", "no exclusion proof for absent key %s: %r" % (short(k), o))
        st, v = ref.establish(o.value.proof, root, hk)
        if st != "absent":
            sim.fail(tag + "-badproof", "exclusion proof of %s does not establish absence (%s)" % (short(k), st))
        r = sim.call(t.verify_proof_of_exclusion, o.value)
    else:
        return
    if not r.ok or r.value is not True:
        sim.fail(tag + "-rejected", "own proof for key %s (present: %r) not accepted: %r" % (
            short(k), k in model, r))


class Obj:
    """An application object as the full store accepts them."""

    def __init__(self, payload):
        self.p = bytes(payload)

    def encode_rlp(self):
        return ref.rlp_enc([b"obj", self.p])

    @staticmethod
    def decode_rlp(b):
        return Obj(ref.rlp_dec(b)[1])

    def __eq__(self, other):
        return isinstance(other, Obj) and other.p == self.p

    def __hash__(self):
        return hash(self.p)

    def __repr__(self):
        return "Obj(%s)" % short(self.p)


def keep(kept, k, v, form):
    """(value to store under k, its model).  Forms "obj+" and "ba+": the application keeps one
    object per key, changes it in place and stores it again."""
    if not form.endswith("+"):
        kept.pop(k, None)
        x = mkval(v, form)
        return x, x
    base = form[:-1]
    twin = mkval(v, base)
    cur = kept.get(k)
    if cur is None or type(cur) is not type(twin):
        cur = kept[k] = mkval(v, base)
    elif base == "obj":
        cur.p = bytes(v)
    else:
        cur[:] = v
    return cur, twin


class NoDecoder:
    """Lacks one half of what an encodable object needs."""

    def encode_rlp(self):
        return b"x"


class NoEncoder:
    def decode_rlp(self, b):
        return self


class Broken(Obj):
    """An application object whose encoder fails."""

    def __init__(self, err):
        Obj.__init__(self, b"broken")
        self.err = err

    def encode_rlp(self):
        raise self.err


class NotBytes(Obj):
    def __init__(self):
        Obj.__init__(self, b"text")

    def encode_rlp(self):
        return "text"


BAD_KEYS = [None, "text", 5, 1.5, ["k"], object(), Ellipsis, ("k",)]
BAD_VALUES = [None, object(), NoDecoder(), NoEncoder(), Broken(RuntimeError("cannot encode")), Broken(MemoryError()),
              Broken(KeyError("x")), Broken(ValueError("x")), NotBytes(), Ellipsis]


def mkval(b, form):
    return Obj(b) if form == "obj" else bytearray(b) if form == "ba" else b


def enc(v):
    """The bytes a value stands for."""
    return v.encode_rlp() if isinstance(v, Obj) else bytes(v)


def same(a, b):
    if isinstance(a, Obj) or isinstance(b, Obj):
        return isinstance(a, Obj) and isinstance(b, Obj) and a.p == b.p
    try:
        return bytes(a) == bytes(b)
    except TypeError:
        return False


def encmap(model):
    return {k: enc(v) for k, v in model.items()}


def check_store(sim, e, model, keys, secure, tag="audit", how=0, data=None):
    """Fault-free check of a full store against its model: root, reads, membership, size, iteration."""
    got, want = e.root_hash(), ref.empt_root(encmap(model), secure)
    if got != want:
        sim.fail(tag + "-root", "root hash is %s, the reference root of the %d entries is %s" % (
            short(got), len(model), short(want)))
    for j, k in enumerate(keys):
        o = sim.call((lambda: e[k]) if (how + j) % 2 else (lambda: e.get(k)))
        if k in model:
            if not o.ok:
                sim.fail(tag + "-lost", "reading present key %s %r, expected %s" % (short(k), o, short(model[k])))
            if not same(o.value, model[k]):
                sim.fail(tag + "-wrong", "reading key %s returned %s, expected %s" % (
                    short(k), short(o.value), short(model[k])))
        elif o.ok:
            sim.fail(tag + "-phantom", "reading absent key %s returned %s" % (short(k), short(o.value)))
        o = sim.call((lambda: k in e) if (how + j) % 3 else (lambda: e.contains(k)))
        if not o.ok or bool(o.value) != (k in model):
            sim.fail(tag + "-membership", "membership test of key %s %r, present: %r" % (short(k), o, k in model))
    o = sim.call(len, e)
    if not o.ok or o.value != len(model):
        sim.fail(tag + "-len", "length %r, the store holds %d entries" % (o, len(model)))
    o = sim.call(lambda: sorted(bytes(k) for k in e))
    if not o.ok or o.value != sorted(model):
        sim.fail(tag + "-iter", "iteration %r, expected the %d keys present" % (o, len(model)))
