"""T02: the root hash is a function of the contents only; replicas converge."""
from .. import gen, ref
from ..kernel import short
from ..seams import CLOCK
from ..storage import Faults, SimStore
from ..world import audit, check_root, reopen_root, sim_keys

RUNS = {"quick": 3000, "thorough": 50000}
RULE = ("Replicas of one trie receive versioned updates over a network that drops, duplicates, delays, reorders and "
        "partitions, with failing stores, restarts and retries; every root compared with an independent "
        "Merkle-Patricia root, every pair of replicas compared by ==, != and hash.")
REAL = ["pymt.mpt", "pymt.utils.node", "pymt.utils.nibble_path", "pymt.utils.hash", "rlp", "Crypto"]
STUB = ["node stores (SimStore)", "network (generated delivery sequence)", "replica protocol (last writer wins, in the harness)"]
ASSUME = ["a store, when it does not report an error, keeps what it is given"]
PROBES = ("apply-failed", "retried", "equal-pair", "different-pair", "emptied", "restart", "stale-delivery", "settled")


def deliveries(rng, n_updates, n_rep, drop, dup, delay):
    """Network: for every update and replica zero or more delivery times."""
    ev = []
    part = []
    for _ in range(rng.choice([0, 0, 1, 2])):
        a = rng.random() * n_updates
        part.append((a, a + rng.random() * n_updates / 2, rng.randrange(n_rep)))
    lost = 0
    for u in range(n_updates):
        for r in range(n_rep):
            t = u + (0.01 if r == 0 else rng.expovariate(1.0) * delay)
            copies = 1 + (rng.random() < dup) + (rng.random() < dup * 0.3)
            for c in range(copies):
                tt = t + c * rng.random() * delay * 3
                if r and rng.random() < drop:
                    lost += 1
                    continue
                if any(a <= tt < b and r == x for a, b, x in part):
                    lost += 1
                    continue
                ev.append((tt, r, u))
    ev.sort()
    return ev, lost


def plan(rng, i, tier):
    big = i % 50 == 3
    nk = rng.randrange(20, 100) if big else rng.randrange(1, 12)
    nu = rng.randrange(100, 200) if big else rng.choice([3, 8, 15, 30])
    ks = gen.keys(rng, nk)
    ks += gen.near(rng, ks, 3)
    vals = gen.values(rng, 20, big=True)
    pdel = rng.choice([0.1, 0.3, 0.5])
    ups = []
    for _ in range(nu):
        ups.append([rng.randrange(len(ks)), None if rng.random() < pdel else rng.randrange(len(vals))])
    nrep = rng.choice([2, 3, 3, 4]) if not big else 2
    net = {"drop": rng.choice([0, 0.1, 0.3]), "dup": rng.choice([0, 0.2, 0.5]), "delay": rng.choice([0.5, 3, 12])}
    ev, lost = deliveries(rng, nu, nrep, **net)
    fp = rng.choice([0, 0.1, 0.3])
    steps = []
    for t, r, u in ev:
        s = {"o": "recv", "t": round(t, 3), "r": r, "u": u}
        if fp and rng.random() < fp:
            s["f"] = [gen.store_fault(rng, "r%d" % r)]
        steps.append(s)
        x = rng.random()
        if x < 0.03:
            steps.append({"o": "restart", "r": rng.randrange(nrep)})
        if x > 0.9:
            steps.append({"o": "cmp", "r": rng.randrange(nrep), "q": rng.randrange(nrep)})
    steps.append({"o": "settle", "order": rng.randrange(1 << 30)})
    p = {"cfg": {"secure": rng.random() < 0.35, "n": nrep, "net": net, "lost": lost}, "ups": ups,
         "keys": gen.hexes(ks), "vals": gen.hexes(vals), "steps": steps}
    return gen.times(rng, p)


def run(sim, plan):
    import random

    keys, vals = sim_keys(plan)
    cfg = plan["cfg"]
    secure, n = cfg["secure"], cfg["n"]
    ups = plan["ups"]
    stores = {"r%d" % r: SimStore(sim, "r%d" % r) for r in range(n)}
    reps = [sim.P.MPT(stores["r%d" % r], secure=secure) for r in range(n)]
    models = [{} for _ in range(n)]
    seen = [{} for _ in range(n)]  # key -> version applied
    failed = [set() for _ in range(n)]
    if cfg.get("lost"):
        sim.fault("net-lost") if cfg["lost"] else None
        sim.faults["net-lost"] += cfg["lost"] - 1
    CLOCK.advance(0.0)
    now = 0.0

    def apply(r, u, f=None):
        k, v = ups[u]
        if seen[r].get(k, -1) >= u:
            sim.probe("stale-delivery")
            return
        key = keys[k]
        t, m = reps[r], models[r]
        old = t.root_hash()
        with Faults(sim, stores, f):
            if v is None:
                if key not in m:
                    seen[r][k] = u
                    return
                out = sim.call(t.delete, key)
            else:
                out = sim.call(t.update, key, vals[v])
        sim.log("apply", str(r), str(u), key, out.ok, out.err)
        if out.ok:
            if v is None:
                m.pop(key)
                if not m:
                    sim.probe("emptied")
            else:
                m[key] = vals[v]
            seen[r][k] = u
            if u in failed[r]:
                sim.probe("retried")
        else:
            if not out.fired:
                sim.fail("spurious-error", "replica %d cannot apply update %d without any fault: %r" % (r, u, out))
            failed[r].add(u)
            sim.probe("apply-failed")
            if t.root_hash() != old:
                sim.fail("failed-op-changed-root", "replica %d: failed update %d changed the root" % (r, u))
        check_root(sim, t, m, secure)

    def compare(a, b):
        same = models[a] == models[b]
        sim.probe("equal-pair" if same else "different-pair")
        A, B = reps[a], reps[b]
        oe, on = sim.call(lambda: A == B), sim.call(lambda: A != B)
        if not oe.ok or not on.ok:
            sim.fail("compare-raises", "comparing two tries %r / %r" % (oe, on))
        if bool(oe.value) != same or bool(on.value) == same:
            sim.fail("compare-wrong", "replicas with %s contents: == gives %r, != gives %r" % (
                "equal" if same else "different", oe.value, on.value))
        if (A.root_hash() == B.root_hash()) != same:
            sim.fail("diverged", "replicas %d, %d: equal contents %r, equal root hashes %r" % (
                a, b, same, not same))
        ha, hb = sim.call(hash, A), sim.call(hash, B)
        if not ha.ok or not hb.ok:
            sim.fail("hash-raises", "hash of a trie %r / %r" % (ha, hb))
        if same and ha.value != hb.value:
            sim.fail("hash-differs", "equal tries hash differently")

    for s in plan["steps"]:
        o = s["o"]
        sim.ops[o if o != "recv" else "deliver"] += 1
        if o == "recv":
            if s["t"] > now:
                CLOCK.advance(s["t"] - now)
                now = s["t"]
            sim.sig.update(b"d%d.%d;" % (s["r"], s["u"]))
            apply(s["r"], s["u"], s.get("f"))
        elif o == "restart":
            r = s["r"]
            reps[r] = sim.P.MPT(stores["r%d" % r], root=reopen_root(reps[r]), secure=secure)
            sim.probe("restart")
            check_root(sim, reps[r], models[r], secure, "restart-root")
        elif o == "cmp":
            compare(s["r"], s["q"])
        else:
            rng = random.Random(s["order"])
            for r in range(n):
                todo = list(range(len(ups)))
                rng.shuffle(todo)
                for u in todo:
                    apply(r, u)
            sim.probe("settled")
            for r in range(n):
                sim.check(models[r] == models[0], "harness", "replica models differ after settling")
                audit(sim, reps[r], models[r], keys[:30], secure, "settled")
                for q in range(r):
                    compare(r, q)
    for r in range(n):
        for q in range(n):
            compare(r, q)
