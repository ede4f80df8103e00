"""T07: a trie needs only the nodes reachable from its root, and takes no missing node for an absent key."""
from .. import gen, ref
from ..kernel import short
from ..storage import Faults, SimStore
from ..world import audit, check_proofs, hashed, read_key, reopen_root, sim_keys

RUNS = {"quick": 5000, "thorough": 90000}
RULE = ("Handles at current and earlier roots of one store; between operations, and at accesses inside them, nodes no root in use reaches are "
        "pruned, nodes of the tries are lost or not yet fetched, and come back; processes restart; tries are opened over nothing but the nodes "
        "of a proof, put in a store or decoded from a transport that carried them, some of them or none.  A reference walk over the nodes that are there says whether an operation can be performed: then it must be, exactly; "
        "otherwise it raises (or is right all the same) and changes nothing.")
REAL = ["pymt.mpt", "pymt.utils.node", "pymt.utils.nibble_path", "pymt.utils.hash", "rlp", "Crypto"]
STUB = ["node store (SimStore) with pruning, loss and fetching"]
ASSUME = ["a missing node is reported by an exception of the store (KeyError)", "nodes that are there are intact"]
PROBES = ("get-possible", "get-impossible", "has-impossible", "set-possible", "set-impossible", "del-possible", "del-impossible", "poi-impossible",
          "poe-impossible", "poi-possible", "poe-possible", "absent-impossible", "pruned", "lost", "fetched", "lost-inside", "fetched-inside",
          "light-present", "light-absent", "light-set", "light-del", "reopened", "empty", "neighbour-missing", "right-although-missing", "wire-proof", "wire-some", "wire-none")


def plan(rng, i, tier):
    big = i % 40 == 11
    ks = gen.keys(rng, rng.randrange(20, 60) if big else rng.choice([1, 2, 3, 5, 8, 12]))
    ks += gen.near(rng, ks, 4)
    vals = gen.values(rng, 12)
    steps = [{"o": "set", "k": rng.randrange(len(ks)), "v": rng.randrange(len(vals)), "h": 0} for _ in range(rng.choice([1, 4, 10]) if not big else 50)]
    for _ in range(rng.choice([6, 15, 30])):
        o = gen.pick(rng, {"set": 4, "del": 3, "get": 3, "has": 2, "poi": 1, "poe": 1, "lose": 3, "fetch": 1.2, "prune": 1.2, "open": 0.8, "reopen": 0.8,
                           "light": 1})
        s = {"o": o, "k": rng.randrange(len(ks)) if rng.random() < 0.6 else rng.choice(steps[-5:])["k"], "h": rng.choice([0, 0, 1, 2, 3])}
        if o == "set":
            old = [x["v"] for x in steps if x["o"] == "set" and x["k"] == s["k"]]
            s["v"] = rng.choice(old) if old and rng.random() < 0.4 else rng.randrange(len(vals))
        elif o == "lose":
            s.update(w=rng.choice(["one", "one", "some", "most", "path", "tip", "neighbours"]), x=rng.randrange(1 << 30))
        elif o == "fetch":
            s.update(w=rng.choice(["all", "all", "path"]))
        elif o == "light":
            s.update(v=rng.randrange(len(vals)), q=[rng.randrange(len(ks)) for _ in range(3)], then=rng.choice(["set", "del", "none"]))
            if rng.random() < 0.4:
                # the nodes travel as an encoded trie; some of them, or all, do not
                s["wire"] = [rng.choice(["proof", "proof", "some", "none"]), rng.randrange(1 << 30)]
        if o in ("set", "del", "get", "has", "poi", "poe") and rng.random() < 0.12:
            s["mid"] = [int(rng.expovariate(0.5)), rng.choice(["lose", "lose", "fetch"]), rng.randrange(1 << 30)]
        if o in ("set", "del") and rng.random() < 0.06:
            s["f"] = [gen.store_fault(rng, "t")]
        steps.append(s)
    return gen.times(rng, {"cfg": {"secure": rng.random() < 0.3}, "keys": gen.hexes(ks), "vals": gen.hexes(vals), "steps": steps})


class Handle:
    def __init__(self, t, model):
        self.t = t
        self.model = dict(model)


def walk(nodes, root, key):
    """References on the path of a key, as far as the nodes lead, and those of the slots next to it."""
    out, beside = [], []
    path = ref.nibbles(key)
    r = root
    while True:
        if isinstance(r, list):
            node = r
        elif len(r) == 32:
            out.append(r)
            if r not in nodes:
                break
            node = ref.rlp_dec(nodes[r])
        else:
            break
        if len(node) == 17:
            beside += [c for c in node[:16] if isinstance(c, bytes) and len(c) == 32]
            if not path:
                break
            r, path = node[path[0]], path[1:]
        else:
            p, leaf = ref.unhp(node[0])
            if leaf or path[: len(p)] != p:
                break
            r, path = node[1], path[len(p):]
    return out, beside


def run(sim, plan):
    keys, vals = sim_keys(plan)
    secure = plan["cfg"]["secure"]
    store = SimStore(sim, "t")
    stores = {"t": store}
    handles = [Handle(sim.P.MPT(store, secure=secure), {})]
    archive = {}

    def remember():
        archive.update(store.mem)

    def nodes_of(model):
        return ref.Trie(model, secure).nodes

    def state(model, k):
        """What the nodes in the store say about a key of a trie with these contents."""
        if not model:
            return "absent"
        T = ref.Trie(model, secure)
        have = [T.root_raw] if len(T.root_raw) < 32 else []
        return ref.establish(list(store.mem.values()) + have, T.root_hash, hashed(k, secure))[0]

    def whole_neighbourhood(model, k):
        T = ref.Trie(model, secure)
        have = dict(store.mem)
        if len(T.root_raw) < 32:
            have[T.root_hash] = T.root_raw
        path, beside = walk(have, T.root_hash, hashed(k, secure))
        return all(r in have for r in path + beside)

    def lose(w, x, h, k):
        mine = sorted(r for r in nodes_of(h.model) if r in store.mem)
        if not mine:
            return 0
        T = ref.Trie(h.model, secure)
        path, beside = walk(archive, T.root_hash, hashed(k, secure))
        if w == "one":
            gone = [mine[x % len(mine)]]
        elif w == "some":
            gone = [r for j, r in enumerate(mine) if (x >> (j % 29)) & 3 == 1]
        elif w == "most":
            gone = [r for j, r in enumerate(mine) if (x >> (j % 29)) & 3]
        elif w == "path":
            gone = path
        elif w == "tip":
            gone = path[-1:]
        else:
            gone = [r for r in beside if r not in path]
        n = 0
        for r in gone:
            n += store.mem.pop(r, None) is not None
        return n

    def mid(spec, h, k):
        n = [spec[0]]

        def access(op, key):
            n[0] -= 1
            if n[0] == -1:
                remember()
                if spec[1] == "lose":
                    if lose("some", spec[2], h, k) or lose("one", spec[2], h, k):
                        sim.fault("lost-inside")
                        sim.probe("lost-inside")
                        fired.append(1)
                else:
                    store.mem.update(archive)
                    sim.fault("fetched-inside")
                    sim.probe("fetched-inside")
                    fired.append(1)

        fired = []
        store.on_access = access
        return fired

    def perform(h, s, k, light=""):
        """One operation on a handle, judged by the nodes that are there."""
        o = s["o"]
        before = state(h.model, k)
        whole = o == "del" and k in h.model and whole_neighbourhood(h.model, k)
        old = h.t.root_hash()
        fired = mid(s["mid"], h, k) if s.get("mid") else ()
        with Faults(sim, stores, s.get("f")):
            if o == "set":
                out = sim.call(h.t.update, k, vals[s["v"]])
            elif o == "del":
                out = sim.call(h.t.delete, k)
            elif o == "get":
                out = sim.call(h.t.get, k)
            elif o == "has":
                out = sim.call(lambda: k in h.t)
            else:
                out = sim.call(h.t.get_proof_of_inclusion if o == "poi" else h.t.get_proof_of_exclusion, k)
        store.on_access = None
        remember()
        disturbed = bool(out.fired or fired)
        sim.log(light + o, k, before, out.ok, out.err or (out.value if o in ("get", "has") else ""))
        present = k in h.model
        known = before != "unknown"
        name = "%s of %s key %s" % (o, "present" if present else "absent", short(k))
        where = " with %d of the %d nodes there" % (sum(r in store.mem for r in nodes_of(h.model)), len(nodes_of(h.model)))
        if o in ("set", "del"):
            new = dict(h.model)
            if o == "set":
                new[k] = vals[s["v"]]
            else:
                new.pop(k, None)
            if out.ok:
                if o == "del" and not present:
                    sim.fail("phantom", name + " returned" + where)
                h.model = new
                if h.t.root_hash() != ref.root_hash(new, secure):
                    sim.fail("wrong-root", "%s%s returned, the root hash is %s instead of %s" % (
                        name, where, short(h.t.root_hash()), short(ref.root_hash(new, secure))))
            else:
                if h.t.root_hash() != old:
                    sim.fail("changed-root", name + where + " raised, but the root hash changed")
                if not disturbed and (o == "set" and known or whole):
                    sim.fail("impossible", "%s%s %r although all it needs is there" % (name, where, out))
            if not known:
                sim.probe(o + "-impossible" if not out.ok else "right-although-missing")
            elif out.ok:
                sim.probe(o + "-possible")
            elif o == "del" and present and not whole:
                sim.probe("neighbour-missing")
            return out.ok
        if h.t.root_hash() != old:
            sim.fail("changed-root", name + " changed the root hash")
        if out.ok:
            if o == "get" and (not present or out.value != h.model[k]):
                sim.fail("wrong-value", "%s%s returned %s, expected %s" % (name, where, short(out.value), short(h.model.get(k))))
            if o == "has" and bool(out.value) != present:
                sim.fail("membership", "%s%s answers %r" % (name, where, out.value))
            if o in ("poi", "poe"):
                got = ref.establish(out.value.proof, ref.root_hash(h.model, secure), hashed(k, secure))[0]
                if got != ("present" if o == "poi" else "absent"):
                    sim.fail("false-proof", "%s%s: the nodes of the proof say %s" % (name, where, got))
        elif not disturbed and known and (o == "has" or o in ("get", "poi") and present or o == "poe" and not present and h.model):
            sim.fail("impossible", "%s%s %r although its path is there" % (name, where, out))
        if not known:
            if out.ok:
                sim.probe("right-although-missing")
            else:
                sim.probe(o + "-impossible")
                if not present:
                    sim.probe("absent-impossible")
        elif out.ok:
            sim.probe(o + "-possible")
        return out.ok

    for s in plan["steps"]:
        o = s["o"]
        sim.ops[o] += 1
        h = handles[s["h"] % len(handles)]
        k = keys[s["k"]]
        if o in ("set", "del", "get", "has", "poi", "poe"):
            perform(h, s, k)
            if not h.model:
                sim.probe("empty")
        elif o == "lose":
            remember()
            n = lose(s["w"], s["x"], h, k)
            if n:
                sim.fault("lost-nodes")
                sim.probe("lost")
            sim.log("lose", s["w"], str(n))
        elif o == "fetch":
            if s["w"] == "all":
                store.mem.update(archive)
            else:
                T = ref.Trie(h.model, secure)
                for r in walk(archive, T.root_hash, hashed(k, secure))[0]:
                    if r in archive:
                        store.mem[r] = archive[r]
            sim.probe("fetched")
            sim.log("fetch", s["w"], str(len(store.mem)))
        elif o == "prune":
            remember()
            keep = set()
            for x in handles:
                keep |= set(nodes_of(x.model))
            gone = [r for r in store.mem if r not in keep]
            for r in gone:
                del store.mem[r]
            for r in list(archive):
                if r not in keep:
                    del archive[r]
            if gone:
                sim.fault("pruned")
                sim.probe("pruned")
            sim.log("prune", str(len(gone)))
        elif o == "open":
            if len(handles) < 4:
                handles.append(Handle(sim.P.MPT(store, root=reopen_root(h.t), secure=secure), h.model))
                sim.log("open", str(len(handles)))
        elif o == "reopen":
            h.t = sim.P.MPT(store, root=reopen_root(h.t), secure=secure)
            sim.probe("reopened")
            sim.log("reopen")
        else:  # light: a trie over nothing but the nodes of a proof
            store.mem.update(archive)
            if not h.model:
                continue
            present = k in h.model
            out = sim.call(h.t.get_proof_of_inclusion if present else h.t.get_proof_of_exclusion, k)
            if not out.ok:
                sim.fail("impossible", "no proof for %s key %s: %r" % ("present" if present else "absent", short(k), out))
            kept, every = dict(store.mem), dict(archive)
            nodes = out.value.proof if present else out.value.proof[:-1]
            store.mem.clear()
            store.mem.update({ref.keccak(bytes(n)): bytes(n) for n in nodes})
            if state(h.model, k) == "unknown":
                sim.fail("false-proof", "the proof for key %s lacks nodes of its path" % short(k))
            if s.get("wire"):
                w, x = s["wire"]
                nodes = [bytes(n) for j, n in enumerate(nodes) if w == "proof" or w == "some" and (x >> (j % 29)) & 1]
                store.mem.clear()
                store.mem.update({ref.keccak(n): n for n in nodes})
                out = sim.call(sim.P.MPT.decode, ref.rlp_enc([reopen_root(h.t), nodes, b"\x01" if secure else b""]))
                sim.log("wire", w, str(len(nodes)), out.ok)
                if out.ok:
                    sim.probe("wire-" + w)
                    light = Handle(out.value, h.model)
                    if out.value.root_hash() != ref.root_hash(h.model, secure):
                        sim.fail("changed-root", "the root hash of a trie decoded with %d nodes is another one" % len(nodes))
                    for q in [k] + [keys[q] for q in s["q"]]:
                        perform(light, {"o": "get"}, q, "wire ")
                        perform(light, {"o": "has"}, q, "wire ")
                        perform(light, {"o": "poi" if q in h.model else "poe"}, q, "wire ")
                    if s["then"] != "none":
                        perform(light, {"o": s["then"], "v": s["v"]}, k, "wire ")
                elif w == "proof" and len(nodes) >= len(nodes_of(h.model)):
                    sim.fail("impossible", "a trie encoded with all its nodes cannot be decoded: %r" % out)
                store.mem.clear()
                store.mem.update(kept)
                archive.clear()
                archive.update(every)
                continue
            light = Handle(sim.P.MPT(store, root=reopen_root(h.t), secure=secure), h.model)
            sim.probe("light-present" if present else "light-absent")
            for q in [k] + [keys[q] for q in s["q"]]:
                perform(light, {"o": "get"}, q, "light ")
                perform(light, {"o": "has"}, q, "light ")
            if s["then"] != "none":
                if perform(light, {"o": s["then"], "v": s["v"]}, k, "light "):
                    sim.probe("light-" + s["then"])
                    store.mem.update(kept)
                    audit(sim, light.t, light.model, keys, secure, "light")
            store.mem.clear()
            store.mem.update(kept)
            archive.clear()
            archive.update(every)
    store.mem.update(archive)
    for n, h in enumerate(handles):
        audit(sim, h.t, h.model, keys, secure, "final", how=n)
        for k in keys[:4]:
            check_proofs(sim, h.t, h.model, k, secure, "final")
        fresh = sim.P.MPT(store, root=reopen_root(h.t), secure=secure)
        for k in keys[:6]:
            read_key(sim, fresh, h.model, k, "fresh", n)
