"""T04: a root saved after its writes became durable survives any crash."""
import random

from .. import gen, ref
from ..kernel import short
from ..storage import Faults, SimStore
from ..world import audit, check_proofs, check_root, read_key, reopen_root, sim_keys

RUNS = {"quick": 4500, "thorough": 60000}
RULE = ("Histories over a store with durable and pending writes; the root is recorded at syncs; crashes at operation boundaries "
        "and at any store access inside an operation lose any subset of the pending writes; the trie reopened at the recorded "
        "root is audited and used further, compared with the reference.")
REAL = ["pymt.mpt", "pymt.utils.node", "pymt.utils.nibble_path", "pymt.utils.hash", "rlp", "Crypto"]
STUB = ["node store with a volatile write cache (SimStore)", "process crashes"]
ASSUME = ["single store writes are atomic", "a synced write stays"]
PROBES = ("crash-idle", "crash-inside", "lost-some", "lost-all", "kept-all", "second-crash", "crash-after-delete", "used-after-crash")


def plan(rng, i, tier):
    big = i % 60 == 5
    nk = rng.randrange(20, 60) if big else rng.randrange(1, 12)
    ks = gen.keys(rng, nk)
    ks += gen.near(rng, ks, 3)
    vals = gen.values(rng, 16)
    n = rng.randrange(80, 150) if big else rng.choice([6, 12, 25, 40])
    psync = rng.choice([0.05, 0.15, 0.3])
    pcrash = rng.choice([0.05, 0.15])
    pdel = rng.choice([0.2, 0.4])
    steps = []
    for _ in range(n):
        x = rng.random()
        if x < psync:
            steps.append({"o": "sync"})
        elif x < psync + pcrash:
            steps.append({"o": "crash", "m": rng.choice(["none", "all", "half", "half", "one", "last"]), "r": rng.randrange(1 << 20)})
        else:
            s = {"o": "del" if rng.random() < pdel else "set", "k": rng.randrange(len(ks)), "v": rng.randrange(len(vals))}
            y = rng.random()
            if y < 0.08:
                s["f"] = [{"s": "t", "on": rng.choice(["any", "set", "write", "del"]), "n": int(rng.expovariate(0.5)),
                           "k": rng.choice(["before", "after"]), "e": "crash"}]
                s["m"], s["r"] = rng.choice(["none", "all", "half", "last"]), rng.randrange(1 << 20)
            elif y < 0.14:
                s["f"] = [gen.store_fault(rng, "t")]
            steps.append(s)
    return {"cfg": {"secure": rng.random() < 0.3, "every": 10 if big else 1}, "keys": gen.hexes(ks),
            "vals": gen.hexes(vals), "steps": steps}


def keeper(mode, seed, total):
    if mode == "none":
        return lambda i: False
    if mode == "all":
        return lambda i: True
    rng = random.Random(seed)
    if mode == "one":
        x = rng.randrange(total) if total else 0
        return lambda i: i != x
    if mode == "last":
        return lambda i: i < total - 1 - seed % 3
    bits = [rng.random() < 0.5 for _ in range(total)]
    return lambda i: bits[i]


def run(sim, plan):
    keys, vals = sim_keys(plan)
    secure, every = plan["cfg"]["secure"], plan["cfg"]["every"]
    store = SimStore(sim, "t", journaled=True)
    stores = {"t": store}
    t = sim.P.MPT(store, secure=secure)
    model = {}
    saved = (reopen_root(t), {})
    crashes = 0
    since = 0
    lastdel = False

    def crash(mode, seed):
        nonlocal t, model, crashes, since
        total = len(store.pending)
        kept, lost = store.crash(keeper(mode, seed, total))
        sim.fault("crash")
        if lost:
            sim.fault("lost-writes")
            sim.faults["writes-lost"] += lost
        sim.probe("lost-some" if lost and kept else "lost-all" if lost else "kept-all")
        if crashes:
            sim.probe("second-crash")
        if lastdel:
            sim.probe("crash-after-delete")
        crashes += 1
        since = 0
        root, m = saved
        t = sim.P.MPT(store, root=root, secure=secure)
        model = dict(m)
        sim.log("reopened", root, str(kept), str(lost))
        audit(sim, t, model, keys, secure, "after-crash")
        for k in keys[:3]:
            check_proofs(sim, t, model, k, secure, "after-crash-proof")

    for n, s in enumerate(plan["steps"]):
        o = s["o"]
        sim.ops[o] += 1
        if o == "sync":
            store.sync()
            saved = (bytes(reopen_root(t)), dict(model))
            sim.log("sync", saved[0])
            continue
        if o == "crash":
            sim.probe("crash-idle")
            crash(s["m"], s["r"])
            continue
        k = keys[s["k"]]
        old = t.root_hash()
        with Faults(sim, stores, s.get("f")):
            out = sim.call(t.update, k, vals[s["v"]]) if o == "set" else sim.call(t.delete, k)
        sim.log(o, k, out.ok, out.err)
        if out.crashed:
            sim.probe("crash-inside")
            lastdel = o == "del"
            crash(s["m"], s["r"])
            continue
        if out.ok:
            lastdel = o == "del"
            if o == "set":
                model[k] = vals[s["v"]]
            elif k in model:
                del model[k]
            else:
                sim.fail("delete-absent", "deleting absent key %s returned" % short(k))
        elif not out.fired and not (o == "del" and k not in model):
            sim.fail("spurious-error", "%s of key %s %r without any fault" % (o, short(k), out))
        elif t.root_hash() != old:
            sim.fail("failed-op-changed-root", "failed %s changed the root" % o)
        if crashes:
            since += 1
            sim.probe("used-after-crash")
        check_root(sim, t, model, secure)
        read_key(sim, t, model, k, "after", n)
        if n % (5 * every) == 0:
            check_proofs(sim, t, model, k, secure, "proof")
    audit(sim, t, model, keys, secure, "final")
    crash("half", len(plan["steps"]))
