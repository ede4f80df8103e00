"""E01: data is returned only if it matches what the trie authenticates."""
from .. import gen, ref
from ..kernel import short
from ..storage import SimStore
from ..world import Obj, check_store, enc, mkval, sim_keys

RUNS = {"quick": 6000, "thorough": 90000}
RULE = ("A full store is filled, then one of its two stores is damaged: entries lost, bits flipped, truncated, extended, "
        "swapped, replaced by stale or foreign ones, rolled back, at rest or only in some read answers; later healed or "
        "overwritten.  Every read is compared with the value last stored; reads of affected keys must raise.")
REAL = ["pymt.empt", "pymt.mpt", "pymt.utils", "rlp", "Crypto"]
STUB = ["node and data stores (SimStore)", "damage to stored entries and to read answers"]
ASSUME = ["one of the two stores is intact at any time"]
PROBES = ("affected-raised", "unaffected-read", "healed", "stale", "lost", "nodes-affected", "overwritten-after-damage",
          "read-mangled", "object")

DKINDS = ["flip", "flip", "trunc", "ext", "drop", "swap", "stale", "foreign", "empty", "rollback", "prefix-move"]
TKINDS = ["flip", "flip", "trunc", "ext", "drop", "swap", "foreign", "empty", "copy"]


def plan(rng, i, tier):
    big = i % 30 == 11
    nk = rng.randrange(20, 60) if big else rng.choice([1, 2, 3, 5, 8, 12])
    ks = gen.keys(rng, nk)
    ks += gen.near(rng, ks, 2)
    vals = gen.values(rng, 12, big=not big)
    steps = []
    form = lambda: rng.choice(["b", "b", "b", "obj", "ba"])  # noqa: E731
    for _ in range(rng.choice([1, 3, 6, 12]) if not big else nk * 2):
        if rng.random() < 0.85:
            steps.append({"o": "set", "k": rng.randrange(len(ks)), "v": rng.randrange(len(vals)), "as": form()})
        else:
            steps.append({"o": "del", "k": rng.randrange(len(ks))})
        if rng.random() < 0.2:
            steps.append({"o": "snap"})
    which = rng.choice(["d", "d", "t"])
    for _ in range(rng.choice([2, 4, 8, 12])):
        o = gen.pick(rng, {"damage": 5, "read": 3, "heal": 0.6, "mangle": 2, "set": 1.5, "del": 0.5, "items": 0.7,
                           "reopen": 0.3, "other": 0.4})
        s = {"o": o}
        if o == "damage":
            s.update(s=which, kind=rng.choice(DKINDS if which == "d" else TKINDS), a=rng.randrange(1 << 30),
                     b=rng.randrange(1 << 30))
            if rng.random() < 0.3:
                steps.append(s)
                s = {"o": "readall"}
        elif o == "read":
            s["k"] = rng.randrange(len(ks))
        elif o == "mangle":
            s.update(s=which, k=rng.randrange(len(ks)), n=rng.choice([0, 0, 1, 2]), len=rng.choice([1, 1, 99]),
                     kind=rng.choice(["flip", "trunc", "ext", "stale", "swap", "empty"]), a=rng.randrange(1 << 30),
                     b=rng.randrange(1 << 30))
        elif o == "set":
            s.update(k=rng.randrange(len(ks)), v=rng.randrange(len(vals)), **{"as": form()})
        elif o == "del":
            s["k"] = rng.randrange(len(ks))
        elif o == "other":
            which = "t" if which == "d" else "d"
        steps.append(s)
    steps.append({"o": "readall"})
    return {"cfg": {"secure": rng.random() < 0.35}, "keys": gen.hexes(ks), "vals": gen.hexes(vals), "steps": steps}


def same(a, b):
    """Equal as far as the trie can authenticate: the encodings are equal."""
    try:
        return enc(a) == enc(b)
    except TypeError:
        return False


def mutate(x, kind, a, b):
    """A damaged version of the stored value x (bytes, bytearray or Obj)."""
    if isinstance(x, Obj):
        return Obj(mutate(x.p, kind, a, b))
    t = type(x)
    x = bytearray(x)
    if kind == "flip" and x:
        i = a % (8 * len(x))
        x[i // 8] ^= 1 << (i % 8)
        if b % 4 == 0:
            j = b % (8 * len(x))
            x[j // 8] ^= 1 << (j % 8)
    elif kind == "trunc" and x:
        x = x[: a % len(x)]
    elif kind == "ext" or not x:
        x += bytes([a % 256]) * (1 + b % 3)
    else:
        x = bytearray()
    return t(x)


class DStore(SimStore):
    """Store whose read answers can be mangled in flight."""

    mangler = None

    def __getitem__(self, key):
        v = super().__getitem__(key)
        if self.mangler is not None:
            v = self.mangler(key, v)
        return v


def walk(mem, root, key):
    """Follow the possibly damaged nodes leniently: ("ref", bytes), ("none", why) or ("odd", why)."""
    path = ref.nibbles(key)
    if root is None:
        return "none", "empty"
    cur = root
    try:
        if len(cur) == 32:
            if cur not in mem:
                return "none", "root lost"
            cur = bytes(mem[cur])
        node = ref.rlp_dec(cur)
        for _ in range(200):
            if not isinstance(node, list):
                return "odd", "no list"
            if len(node) == 17:
                if not path:
                    return ("ref", node[16]) if isinstance(node[16], bytes) and node[16] else ("odd", "value")
                nxt, path = node[path[0]], path[1:]
                if nxt == b"":
                    return "none", "slot"
            elif len(node) == 2:
                p, leaf = ref.unhp(node[0])
                if leaf:
                    if p != path:
                        return "none", "leaf"
                    return ("ref", node[1]) if isinstance(node[1], bytes) else ("odd", "value")
                if path[: len(p)] != p:
                    return "none", "path"
                nxt, path = node[1], path[len(p):]
            else:
                return "odd", "len"
            if isinstance(nxt, list):
                node = nxt
            elif len(nxt) == 32:
                if nxt not in mem:
                    return "none", "lost"
                node = ref.rlp_dec(bytes(mem[nxt]))
            else:
                return "odd", "ref"
    except (ref.Bad, IndexError, KeyError):
        return "odd", "bytes"
    return "odd", "loop"


def run(sim, plan):
    keys, vals = sim_keys(plan)
    secure = plan["cfg"]["secure"]
    t, d = DStore(sim, "t"), DStore(sim, "d")
    stores = {"t": t, "d": d}
    e = sim.P.EMPT(t, d, secure=secure)
    model = {}
    old = {}  # key -> former values
    snaps = []
    damaged = {"t": {}, "d": {}}  # store key -> what it should hold
    path = {}  # key -> node entries a read of it needs, before any damage

    def good():
        return not damaged["t"] and not damaged["d"]

    def note_paths():
        """Read every key whose data is undamaged (all nodes are), noting the nodes it needs."""
        for kk in model:
            if kk in damaged["d"]:
                continue
            t.readers = []
            out = sim.call(e.get, kk)
            path[kk] = set(t.readers)
            t.readers = None
            if not out.ok or not same(out.value, model[kk]):
                sim.fail("undamaged-read", "reading key %s, not damaged, %r, expected %s" % (
                    short(kk), out, short(model[kk])))

    def read(k, how=0):
        out = sim.call((lambda: e[k]) if how else (lambda: e.get(k)))
        sim.log("read", k, out.ok, out.err or out.value)
        judge(k, out)

    def judge(k, out):
        if out.ok and not (k in model and same(out.value, model[k])):
            sim.fail("wrong-data", "reading key %s returned %s, last stored: %s" % (
                short(k), short(out.value), short(model.get(k)) if k in model else "nothing"))
        if k not in model:
            return
        if k in damaged["d"]:
            if out.ok:
                sim.fail("affected-read", "reading key %s returned although its data is damaged" % short(k))
            sim.probe("affected-raised")
        elif damaged["t"] and path.get(k, set()) & set(damaged["t"]):
            kind, r = walk(t.mem, e.root(), ref.keccak(k) if secure else k)
            must = kind == "none"
            if kind == "ref":
                try:
                    f = ref.rlp_dec(r)
                    must = isinstance(f, list) and len(f) == 4 and f[1] + f[2] != k + enc(model[k])
                except (ref.Bad, TypeError):
                    pass
            if must:
                if out.ok:
                    sim.fail("affected-read", "reading key %s returned although its nodes no longer lead to its reference" % short(k))
                sim.probe("nodes-affected")
                sim.probe("affected-raised")
        else:
            if not out.ok:
                sim.fail("unaffected-lost", "reading key %s, whose data and nodes are undamaged, %r" % (short(k), out))
            sim.probe("unaffected-read")

    for s in plan["steps"]:
        o = s["o"]
        sim.ops[o] += 1
        if o in ("set", "del"):
            if damaged["t"]:
                continue  # an update over damaged nodes has no defined outcome
            k = keys[s["k"]]
            if o == "set":
                v = mkval(vals[s["v"]], s["as"])
                if s["as"] == "obj":
                    sim.probe("object")
                e[k] = v
                if k in damaged["d"]:
                    sim.probe("overwritten-after-damage")
                if k in model:
                    old.setdefault(k, []).append(model[k])
                model[k] = v
                damaged["d"].pop(k, None)
            elif k in model and k not in damaged["d"]:
                del e[k]
                old.setdefault(k, []).append(model.pop(k))
            note_paths()
        elif o == "snap":
            snaps.append(dict(model))
        elif o == "damage":
            other = "t" if s["s"] == "d" else "d"
            if damaged[other]:
                continue
            damage(sim, s, stores[s["s"]], damaged[s["s"]], old, snaps, model)
        elif o == "heal":
            for n in ("t", "d"):
                for kk, v in damaged[n].items():
                    if n == "d":
                        path.pop(kk, None)
                    stores[n].mem[kk] = v
                damaged[n].clear()
            for kk in list(d.mem):
                if kk not in model:
                    del d.mem[kk]
            note_paths()
            sim.probe("healed")
        elif o == "read":
            read(keys[s["k"]], s["k"] % 2)
        elif o == "readall":
            for j, k in enumerate(keys):
                read(k, j % 2)
        elif o == "reopen":
            root = e.root() or e.root_hash()
            e = sim.P.EMPT(t, d, root=root, secure=secure)
        elif o == "items":
            for kk in sorted(model):
                out = sim.call(e.get, kk)
                judge(kk, out)
            out = sim.call(lambda: list(e.items()))
            if out.ok:
                for kk, v in out.value:
                    if not (kk in model and same(v, model[kk])):
                        sim.fail("wrong-data", "items() gave %s for key %s, last stored: %s" % (
                            short(v), short(kk), short(model[kk]) if kk in model else "nothing"))
                    if kk in damaged["d"]:
                        sim.fail("affected-read", "items() gave data for key %s although it is damaged" % short(kk))
        elif o == "mangle":
            other = "t" if s["s"] == "d" else "d"
            if damaged[other] or keys[s["k"]] not in model:
                continue
            k = keys[s["k"]]
            st = stores[s["s"]]
            c = {"n": s["n"], "left": s["len"], "hit": 0, "right": False}
            pool = [v for kk, v in sorted(d.mem.items()) if kk != k] if s["s"] == "d" else [
                v for _, v in sorted(t.mem.items())]

            def mangler(key, v):
                if c["n"] > 0:
                    c["n"] -= 1
                    return v
                if c["left"] <= 0:
                    return v
                c["left"] -= 1
                kind = s["kind"]
                if kind == "stale":
                    prev = [x for x in old.get(key, []) if not same(x, v)]
                    if not prev:
                        return v
                    w = prev[s["a"] % len(prev)]
                elif kind == "swap":
                    cand = [x for x in pool if not same(x, v)]
                    if not cand:
                        return v
                    w = cand[s["a"] % len(cand)]
                else:
                    w = mutate(v, kind, s["a"], s["b"])
                if same(w, v):
                    return v
                c["hit"] += 1
                if same(w, model[k]):
                    c["right"] = True  # (the entry at rest was damaged and this read happens to undo it)
                sim.fault("%s-read-%s" % (s["s"], kind))
                sim.probe("read-mangled")
                return w

            st.mangler = mangler
            out = sim.call(e.get, k)
            st.mangler = None
            sim.log("mangled read", k, out.ok, out.err or out.value, str(c["hit"]))
            if out.ok and not same(out.value, model[k]):
                sim.fail("wrong-data", "reading key %s returned %s while the store served damaged bytes, last stored: %s" % (
                    short(k), short(out.value), short(model[k])))
            if s["s"] == "d" and c["hit"] and s["n"] == 0 and s["len"] > 1 and out.ok and not c["right"]:
                sim.fail("affected-read", "reading key %s returned although every data read was damaged" % short(k))
    if good() and set(d.mem) == set(model) and all(type(d.mem[k]) is type(model[k]) for k in model):
        check_store(sim, e, model, keys, secure, "final")


def damage(sim, s, st, dam, old, snaps, model):
    kind, a, b = s["kind"], s["a"], s["b"]
    present = sorted(k for k in st.mem)
    if not present:
        return
    k = present[a % len(present)]
    x = st.mem[k]

    def put(key, v):
        """v is None: lost"""
        want = dam.get(key, model.get(key) if st.name == "d" else st.mem.get(key))
        if key in st.mem or v is not None:
            if v is None:
                st.mem.pop(key, None)
            else:
                st.mem[key] = v
        if st.name == "d" and key not in model:
            return
        if v is not None and same(v, want):
            dam.pop(key, None)
        else:
            dam[key] = want

    before = dict(dam)
    if kind == "drop":
        put(k, None)
        sim.probe("lost")
    elif kind == "swap":
        k2 = present[b % len(present)]
        y = st.mem[k2]
        put(k, y)
        put(k2, x)
    elif kind == "copy":
        put(k, st.mem[present[b % len(present)]])
    elif kind == "stale":
        if old.get(k):
            put(k, old[k][b % len(old[k])])
            sim.probe("stale")
    elif kind == "foreign":
        put(k, gen_foreign(a if st.name == "d" else a * 3, b, x))
    elif kind == "prefix-move":
        # key/data boundary: the value of a longer key under the shorter one
        for k2 in present:
            if k2 != k and k2[: len(k)] == k and not isinstance(st.mem[k2], Obj):
                put(k, k2[len(k):] + bytes(st.mem[k2]))
                break
    elif kind == "rollback":
        if snaps:
            sn = snaps[a % len(snaps)]
            for kk in sorted(set(model) | set(sn)):
                if kk in sn:
                    put(kk, sn[kk])
                elif kk in st.mem:
                    put(kk, None)
            sim.probe("stale")
    else:
        put(k, mutate(x, kind, a, b))
    if dam != before:
        sim.fault("%s-%s" % (st.name, kind))
        sim.log("damage", st.name, kind, k)


def gen_foreign(a, b, x):
    if a % 3 == 0:
        return ref.keccak(b"%d" % b)
    if a % 3 == 1:
        return Obj(b"%d" % b) if not isinstance(x, Obj) else enc(x) + b"\x00"
    return bytes(b % 256 for _ in range(a % 40))
