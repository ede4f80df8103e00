"""E03: a crash between the two stores is detected and repaired by a rebuild."""
import random

from .. import gen, ref
from ..kernel import short
from ..storage import Faults, SimStore
from ..world import check_store, encmap, mkval, same, sim_keys

RUNS = {"quick": 8000, "thorough": 60000}
RULE = ("The process dies at a drawn access of either store (or at an executed line) during an update or delete; any subset of "
        "the writes since the recorded root is lost, the last data write possibly torn; the store is reopened at the recorded "
        "root, read, rebuilt (rebuilds crash as well), used further, and the cycle repeats.")
REAL = ["pymt.empt", "pymt.mpt", "pymt.utils", "rlp", "Crypto"]
STUB = ["node and data stores (SimStore with durability)", "process crashes"]
ASSUME = ["single store entries are written atomically except for the torn data write", "the root is recorded durably after each operation"]
PROBES = ("crashed-op", "crashed-rebuild", "failed-rebuild", "touched-error", "touched-old", "writes-lost", "torn", "rebuilt", "object",
          "recorded-empty")


def plan(rng, i, tier):
    big = i % 30 == 17
    nk = rng.randrange(15, 40) if big else rng.choice([1, 2, 3, 5, 8])
    ks = gen.keys(rng, nk)
    ks += gen.near(rng, ks, 2)
    vals = gen.values(rng, 12)
    form = lambda: rng.choice(["b", "b", "b", "obj", "ba"])  # noqa: E731
    steps = []
    for _ in range(rng.choice([0, 1, 3, 6]) if not big else nk):
        steps.append({"o": "set", "k": rng.randrange(len(ks)), "v": rng.randrange(len(vals)), "as": form()})
    for _ in range(rng.choice([2, 4, 8])):
        r = rng.random()
        s = {"o": "set" if r < 0.65 else "del", "k": rng.randrange(len(ks)), "v": rng.randrange(len(vals)), "as": form()}
        if rng.random() < 0.6:
            if rng.random() < 0.7:
                s["f"] = [{"s": rng.choice("tdd"), "on": rng.choice(["any", "set", "write", "any"]),
                           "n": int(rng.expovariate(0.4)), "k": rng.choice(["before", "after"]), "e": "crash"}]
            else:
                s["f"] = [{"s": "line", "n": rng.randrange(150), "e": "crash"}]
            s["keep"] = rng.choice([0, 0.5, 0.5, 0.9, 1])
            s["ks"] = rng.randrange(1 << 30)
            s["torn"] = rng.random() < 0.2
            s["cut"] = [rng.randrange(0, 30) if rng.random() < 0.7 else rng.randrange(0, 400)
                        for _ in range(rng.choice([0, 0, 1, 2, 3]))]
            s["cuth"] = "crash" if rng.random() < 0.6 else rng.choice(["os", "os", "store", "key", "timeout", "val"])
            s["rebuild"] = rng.random() < 0.85
        steps.append(s)
        if rng.random() < 0.12:
            steps.append({"o": "rebuild"})
    return {"cfg": {"secure": rng.random() < 0.3}, "keys": gen.hexes(ks), "vals": gen.hexes(vals), "steps": steps}


def run(sim, plan):
    keys, vals = sim_keys(plan)
    secure = plan["cfg"]["secure"]
    t, d = SimStore(sim, "t", journaled=True), SimStore(sim, "d", journaled=True)
    stores = {"t": t, "d": d}

    def opened(root):
        return sim.P.EMPT(t, d, root=root, secure=secure)

    e = sim.P.EMPT(t, d, secure=secure)
    model = {}
    rec = e.root() or e.root_hash()

    def crash(keep, seed, torn=False):
        rng = random.Random(seed)
        kept = lost = 0
        tear = None
        if torn and d.pending and d.pending[-1][0] == "set" and isinstance(d.pending[-1][2], (bytes, bytearray)):
            tear = d.pending[-1]
        for st in (t, d):
            a, b = st.crash(lambda i: rng.random() < keep)
            kept, lost = kept + a, lost + b
        if lost:
            sim.probe("writes-lost")
            sim.fault("writes-lost")
        if tear is not None and d.mem.get(tear[1]) is tear[2] and len(tear[2]):
            d.mem[tear[1]] = tear[2][: rng.randrange(len(tear[2]))]
            d.disk[tear[1]] = d.mem[tear[1]]
            sim.probe("torn")
            sim.fault("torn-write")
            return kept, lost, tear[1]
        return kept, lost, None

    def after_rebuild(e, tag):
        """The rebuilt store equals one freshly filled with the data it holds."""
        m = dict(d.mem)
        check_store(sim, e, m, keys, secure, tag)
        fresh = sim.P.EMPT({}, {}, secure=secure)
        for k in sorted(m, reverse=True):
            fresh[k] = m[k]
        if fresh.root_hash() != e.root_hash():
            sim.fail(tag + "-root", "the rebuilt root differs from a freshly filled store's")
        return m

    for s in plan["steps"]:
        o = s["o"]
        sim.ops[o] += 1
        if o == "rebuild":
            out = sim.call(e.build_trie)
            if not out.ok:
                sim.fail("rebuild-failed", "rebuilding an intact store of %d entries %r" % (len(model), out))
            after_rebuild(e, "intact-rebuild")
            sim.probe("rebuilt")
            for st in (t, d):
                st.sync()
            rec = e.root() or e.root_hash()
            continue
        k = keys[s["k"]]
        v = mkval(vals[s["v"]], s["as"])
        if s["as"] == "obj":
            sim.probe("object")
        if o == "del" and k not in model and not s.get("f"):
            continue
        new = dict(model)
        if o == "set":
            new[k] = v
        else:
            new.pop(k, None)
        with Faults(sim, stores, s.get("f")):
            out = sim.call((lambda: e.update(k, v)) if o == "set" else (lambda: e.delete(k)))
        sim.log(o, k, out.ok, "crash" if out.crashed else out.err or "")
        if not out.crashed:
            if not out.ok and not (o == "del" and k not in model):
                sim.fail("spurious-error", "%s of key %s %r" % (o, short(k), out))
            if out.ok:
                model = new
            for st in (t, d):
                st.sync()
            rec = e.root() or e.root_hash()
            continue
        # ---- the process died
        sim.probe("crashed-op")
        if not model:
            sim.probe("recorded-empty")
        kept, lost, torn = crash(s["keep"], s["ks"], s.get("torn"))
        sim.log("crashed", "kept %d lost %d" % (kept, lost), "torn" if torn else "")
        e = opened(rec)
        if e.root_hash() != ref.empt_root(encmap(model), secure):
            sim.fail("recorded-root", "reopened at the recorded root the store shows another root hash")
        for j, x in enumerate(keys):
            out = sim.call((lambda: e[x]) if j % 2 else (lambda: e.get(x)))
            if x != k:
                if x in model and (not out.ok or not same(out.value, model[x])):
                    sim.fail("untouched-key", "after a crash during %s of %s, key %s, not touched, %r, expected %s" % (
                        o, short(k), short(x), out, short(model[x])))
                if x not in model and out.ok:
                    sim.fail("phantom", "after a crash, reading absent key %s returned %s" % (short(x), short(out.value)))
            elif out.ok:
                if not (x in model and same(out.value, model[x])) and not (x in new and same(out.value, new[x])):
                    sim.fail("touched-key", "after a crash during %s, key %s returned %s, neither old nor new" % (
                        o, short(x), short(out.value)))
                sim.probe("touched-old")
            else:
                sim.probe("touched-error")
        # ---- repair
        if not s.get("rebuild", True):
            # the operation is repeated instead; only a store that took it completely may go on
            again = sim.call((lambda: e.update(k, v)) if o == "set" else (lambda: e.delete(k)))
            if again.ok:
                model = new
                check_store(sim, e, model, keys, secure, "repeated-" + o)
                for st in (t, d):
                    st.sync()
                rec = e.root() or e.root_hash()
                continue
        data = dict(d.mem)
        for n, cut in enumerate(s.get("cut", ())):
            how = s.get("cuth", "crash")
            f = {"s": "t" if n % 3 else "d" if cut % 4 == 0 else "t", "on": "any", "n": cut, "k": "before", "e": how}
            if cut >= 30:
                f = {"s": "line", "n": cut * 3, "e": "crash" if how == "crash" else "mem"}
            with Faults(sim, stores, [f]):
                out = sim.call(e.build_trie)
            if out.ok:
                # whatever was injected, a rebuild that returns has done its work
                after_rebuild(e, "cut-rebuild")
                break
            if how != "crash" and out.fired:
                # the rebuild failed but the process lives on: it is simply repeated
                sim.probe("failed-rebuild")
                if set(d.mem) != set(data) or any(not same(d.mem[x], data[x]) for x in data):
                    sim.fail("rebuild-changed-data", "a failed rebuild of the trie changed the data store")
                continue
            if not out.crashed:
                sim.fail("rebuild-failed", "rebuilding from %d entries %r" % (len(data), out))
            sim.probe("crashed-rebuild")
            crash(s["keep"], s["ks"] + n + 1)
            if set(d.mem) != set(data) or any(not same(d.mem[x], data[x]) for x in data):
                sim.fail("rebuild-changed-data", "rebuilding the trie changed the data store")
            e = opened(rec)
        out = sim.call(e.build_trie)
        if not out.ok:
            sim.fail("rebuild-failed", "rebuilding from %d entries after a crash %r" % (len(data), out))
        sim.probe("rebuilt")
        if set(d.mem) != set(data) or any(not same(d.mem[x], data[x]) for x in data):
            sim.fail("rebuild-changed-data", "rebuilding the trie changed the data store")
        model = after_rebuild(e, "rebuilt")
        for st in (t, d):
            st.sync()
        rec = e.root() or e.root_hash()
    check_store(sim, opened(rec), model, keys, secure, "final")
