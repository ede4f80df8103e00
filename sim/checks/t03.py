"""T03: a trie opened at an earlier root is an immutable snapshot, under any interleaving."""
from .. import gen, ref
from ..kernel import short
from ..storage import Faults, SimStore
from ..world import audit, check_proofs, check_root, read_key, reopen_root, sim_keys

RUNS = {"quick": 3000, "thorough": 30000}
RULE = ("Threads with their own trie handles at current and earlier roots of one shared store; preempted at store accesses "
        "and at executed lines; writers fail or are stopped midway; every answer of every handle compared with the map of "
        "the root it was opened at plus its own acknowledged operations.")
REAL = ["pymt.mpt", "pymt.utils.node", "pymt.utils.nibble_path", "pymt.utils.hash", "rlp", "Crypto"]
STUB = ["node store (SimStore)", "thread scheduler", "failures and interrupts"]
ASSUME = ["the shared store's single operations are atomic", "one handle is used by one thread at a time"]
PROBES = ("branch-off", "writer-failed", "old-snapshot-read", "delete", "proof")


def plan(rng, i, tier):
    lines = rng.random() < 0.45
    nk = rng.randrange(2, 8) if lines else rng.randrange(2, 14)
    ks = gen.keys(rng, nk)
    ks += gen.near(rng, ks, 2)
    vals = gen.values(rng, 14)
    nb = rng.choice([0, 2, 5, 9]) if not lines else rng.choice([1, 3, 5])
    base = []
    for _ in range(nb):
        base.append({"o": rng.choice(["set", "set", "set", "del"]), "k": rng.randrange(len(ks)),
                     "v": rng.randrange(len(vals))})
    nt = rng.choice([2, 2, 3, 4])
    fp = rng.choice([0, 0, 0.1, 0.3])
    tasks = []
    for t in range(nt):
        writer = t == 0 or rng.random() < 0.5
        steps = [{"o": "open", "s": rng.choice([-1, rng.randrange(20)])}]
        for _ in range(rng.choice([2, 4, 8]) if lines else rng.choice([4, 8, 16])):
            if writer:
                o = gen.pick(rng, {"set": 5, "del": 3, "get": 2, "open": 0.7, "audit": 0.4, "proof": 0.5})
            else:
                o = gen.pick(rng, {"get": 5, "has": 2, "proof": 2, "open": 0.8, "audit": 0.7})
            s = {"o": o}
            if o == "open":
                s["s"] = rng.choice([-1, rng.randrange(20)])
            elif o != "audit":
                s["k"] = rng.randrange(len(ks))
                s["v"] = rng.randrange(len(vals))
            if fp and o in ("set", "del", "get", "has") and rng.random() < fp:
                s["f"] = [gen.store_fault(rng, "v", write=o in ("set", "del"))]
            steps.append(s)
        tasks.append(steps)
    sched = {"mode": "seed", "seed": rng.randrange(1 << 40), "lines": lines}
    if rng.random() < 0.4:
        sched["points"], sched["span"] = rng.choice([1, 2, 4, 8]), rng.choice([60, 300, 1500])
    else:
        sched["p"] = rng.choice([0.005, 0.03, 0.3]) if lines else rng.choice([0.03, 0.2, 0.6])
    return {"cfg": {"secure": rng.random() < 0.3, "lines": lines}, "keys": gen.hexes(ks), "vals": gen.hexes(vals),
            "base": base, "tasks": tasks, "sched": sched}


class View(SimStore):
    """A task's own access path to the shared store: shared data, its own faults."""

    def __init__(self, sim, name, shared):
        super().__init__(sim, name)
        self.mem = shared.mem
        self.disk = shared.disk


def run(sim, plan):
    keys, vals = sim_keys(plan)
    secure = plan["cfg"]["secure"]
    shared = SimStore(sim, "t")
    t = sim.P.MPT(shared, secure=secure)
    model = {}
    snaps = [(reopen_root(t), {})]
    for s in plan["base"]:
        k = keys[s["k"]]
        if s["o"] == "set":
            t.update(k, vals[s["v"]])
            model[k] = vals[s["v"]]
        elif k in model:
            t.delete(k)
            del model[k]
        snaps.append((reopen_root(t), dict(model)))

    def task(me, steps):
        view = View(sim, "v", shared)
        stores = {"v": view}
        st = {"h": None, "m": {}, "pinned": None}

        def opened(idx):
            root, m = snaps[idx % len(snaps)] if idx >= 0 else snaps[-1]
            st["h"] = sim.P.MPT(view, root=root, secure=secure)
            st["m"] = dict(m)
            if st["m"] != snaps[-1][1]:
                sim.probe("branch-off")
            sim.log("open", str(me), root)

        def body():
            opened(-1)
            for s in steps:
                o = s["o"]
                sim.ops[o] += 1
                h, m = st["h"], st["m"]
                if o == "open":
                    opened(s["s"])
                    continue
                if o == "audit":
                    audit(sim, h, m, keys, secure, "snapshot")
                    continue
                k = keys[s["k"]]
                if o == "proof":
                    sim.probe("proof")
                    check_proofs(sim, h, m, k, secure, "snapshot-proof")
                    continue
                if m != snaps[-1][1]:
                    sim.probe("old-snapshot-read")
                before = h.root_hash()
                with Faults(sim, stores, s.get("f")):
                    fired0 = view.fired
                    if o == "set":
                        out = sim.call(h.update, k, vals[s["v"]])
                    elif o == "del":
                        out = sim.call(h.delete, k)
                    elif o == "get":
                        out = sim.call(h.get, k)
                    else:
                        out = sim.call(h.contains, k)
                    fired = view.fired - fired0
                sim.log(o, str(me), k, out.ok, out.err or out.value)
                if o in ("set", "del"):
                    if out.ok:
                        if o == "set":
                            m[k] = vals[s["v"]]
                        else:
                            sim.probe("delete")
                            if k not in m:
                                sim.fail("delete-absent", "task %d: deleting absent key %s returned" % (me, short(k)))
                            del m[k]
                        check_root(sim, h, m, secure, "writer-root")
                        snaps.append((reopen_root(h), dict(m)))
                    else:
                        if not fired and not (o == "del" and k not in m):
                            sim.fail("spurious-error", "task %d: %s of %s %r without a fault" % (me, o, short(k), out))
                        if fired:
                            sim.probe("writer-failed")
                        sim.check(h.root_hash() == before, "failed-op-changed-root",
                                  "task %d: failed %s changed the root" % (me, o))
                elif out.ok:
                    if o == "get":
                        if k not in m:
                            sim.fail("phantom", "task %d: reading %s, absent at its root, returned %s" % (
                                me, short(k), short(out.value)))
                        if out.value != m[k]:
                            sim.fail("wrong-value", "task %d: reading %s returned %s, its root holds %s" % (
                                me, short(k), short(out.value), short(m[k])))
                    elif bool(out.value) != (k in m):
                        sim.fail("membership", "task %d: membership of %s answers %r, at its root %r" % (
                            me, short(k), out.value, k in m))
                elif not fired and (o == "has" or k in m):
                    sim.fail("snapshot-lost", "task %d: %s of key %s, present at its root, %r" % (
                        me, o, short(k), out))
            audit(sim, st["h"], st["m"], keys, secure, "final")

        return body

    sim.run_tasks([task(i, s) for i, s in enumerate(plan["tasks"])])
    # every snapshot ever taken still answers exactly
    for n, (root, m) in enumerate(snaps):
        h = sim.P.MPT(shared, root=root, secure=secure)
        audit(sim, h, m, keys, secure, "old-root")
        if n % 5 == 0 and keys:
            check_proofs(sim, h, m, keys[n % len(keys)], secure, "old-root-proof")
