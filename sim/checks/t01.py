"""T01: the trie is an exact map, and an operation that fails changes nothing."""
from .. import gen, ref
from ..kernel import short
from ..storage import Faults, SimStore
from ..world import BAD_KEYS, BAD_VALUES, audit, check_root, read_key, reopen_root, sim_keys

RUNS = {"quick": 4500, "thorough": 60000}
RULE = ("Random histories of set, overwrite, delete, read and reopen on one trie over a simulated store, "
        "with store failures before or after taking effect and aborts at an executed line; every answer compared with a map.")
REAL = ["pymt.mpt", "pymt.utils.node", "pymt.utils.nibble_path", "pymt.utils.hash", "rlp", "Crypto"]
STUB = ["node store (SimStore)", "interrupts and allocation failures"]
ASSUME = ["the store, when it does not report an error, keeps what it is given"]
PROBES = ("set-failed", "delete-failed", "read-failed", "emptied", "overwrite", "reopened", "absent-prefix-read", "bad-argument")


def gen_history(rng, nkeys, nsteps, fault_p, extra_near=4):
    ks = gen.keys(rng, nkeys)
    ks += gen.near(rng, ks, extra_near)
    vals = gen.values(rng, max(3, min(nsteps, 40)), big=nsteps < 40)
    w = {"set": rng.choice([3, 5, 8]), "del": rng.choice([1, 3, 5]), "get": 2, "has": 1, "reopen": 0.3, "bad": 0.4}
    steps, last = [], {}
    hot = rng.sample(range(len(ks)), min(len(ks), rng.choice([3, 6, len(ks)])))
    for _ in range(nsteps):
        o = gen.pick(rng, w)
        k = rng.choice(hot) if rng.random() < 0.6 else rng.randrange(len(ks))
        s = {"o": o}
        if o != "reopen":
            s["k"] = k
            s["api"] = rng.randrange(2)
        if o == "set":
            s["v"] = rng.randrange(len(vals))
            if k in last and rng.random() < 0.15:
                # overwritten by a value much like the one there
                s["v"] = len(vals)
                vals.append(gen.kin(rng, vals[last[k]]))
            last[k] = s["v"]
        if o == "bad":
            s.update(what=rng.choice(["set", "set", "setv", "setv", "del", "get"]), x=rng.randrange(40))
        if fault_p and o not in ("reopen", "bad") and rng.random() < fault_p:
            r = rng.random()
            if r < 0.75:
                s["f"] = [gen.store_fault(rng, "t", write=o in ("set", "del"))]
            else:
                s["f"] = [gen.line_fault(rng)]
        steps.append(s)
    return ks, vals, steps


def plan(rng, i, tier):
    big = i % 40 == 7
    n = rng.randrange(20, 90) if big else rng.randrange(1, 14)
    steps = rng.randrange(100, 260) if big else rng.choice([4, 10, 20, 40])
    fp = rng.choice([0.0, 0.1, 0.25, 0.5])
    ks, vals, st = gen_history(rng, n, steps, fp)
    return {"cfg": {"secure": rng.random() < 0.3, "every": 1 if not big else 25, "fault_p": fp},
            "keys": gen.hexes(ks), "vals": gen.hexes(vals), "steps": st}


def run(sim, plan):
    keys, vals = sim_keys(plan)
    secure = plan["cfg"]["secure"]
    store = SimStore(sim, "t")
    stores = {"t": store}
    t = sim.P.MPT(store, secure=secure)
    model = {}
    every = plan["cfg"]["every"]
    for n, s in enumerate(plan["steps"]):
        o = s["o"]
        sim.ops[o] += 1
        if o == "reopen":
            t = sim.P.MPT(store, root=reopen_root(t), secure=secure)
            sim.probe("reopened")
            check_root(sim, t, model, secure)
            continue
        k = keys[s["k"]]
        api = s.get("api", 0)
        old_hash = t.root_hash()
        if o == "bad":
            # an argument no operation can work with
            b = (BAD_VALUES if s["what"] == "setv" else BAD_KEYS)[s["x"] % (10 if s["what"] == "setv" else 8)]
            out = sim.call({"set": lambda: t.update(b, b"value"), "setv": lambda: t.update(k, b),
                            "del": lambda: t.delete(b), "get": lambda: t.get(b)}[s["what"]])
            sim.log(o, s["what"], k, out.ok, out.err or "")
            if out.ok:
                return  # nothing is promised about what it means
            sim.probe("bad-argument")
            if t.root_hash() != old_hash:
                sim.fail("failed-op-changed-root", "%s with an unusable argument raised but the root hash changed" % s["what"])
            audit(sim, t, model, keys, secure, "audit", how=n)
            continue
        line = any(f.get("s") == "line" for f in s.get("f", ()))
        if o == "set":
            v = vals[s["v"]]
            fn = (lambda: t.update(k, v)) if api else (lambda: t.__setitem__(k, v))
        elif o == "del":
            fn = (lambda: t.delete(k)) if api else (lambda: t.__delitem__(k))
        elif o == "get":
            fn = (lambda: t.get(k)) if api else (lambda: t[k])
        else:
            fn = (lambda: t.contains(k)) if api else (lambda: k in t)
        with Faults(sim, stores, s.get("f")):
            out = sim.call(fn)
        sim.log(o, k, out.ok, out.err or out.value)
        if o in ("set", "del"):
            new = dict(model)
            if o == "set":
                new[k] = v
                if k in model:
                    sim.probe("overwrite")
            else:
                new.pop(k, None)
            if out.ok:
                if o == "del" and k not in model:
                    sim.fail("delete-absent", "deleting absent key %s returned" % short(k))
                model = new
                if not model:
                    sim.probe("emptied")
            else:
                if not out.fired and not (o == "del" and k not in model):
                    sim.fail("spurious-error", "%s of key %s %r without any fault" % (o, short(k), out))
                if out.fired:
                    sim.probe("set-failed" if o == "set" else "delete-failed")
                if line and out.fired and t.root_hash() == ref.root_hash(new, secure):
                    model = new  # aborted after taking effect
                elif t.root_hash() != old_hash:
                    sim.fail("failed-op-changed-root", "%s of key %s raised but the root hash changed" % (o, short(k)))
            if out.fired or n % every == 0 or n == len(plan["steps"]) - 1:
                audit(sim, t, model, keys, secure, "audit", how=n)
            else:
                check_root(sim, t, model, secure)
                read_key(sim, t, model, k, "after", n)
        else:
            if out.ok:
                if o == "get":
                    if k not in model:
                        sim.fail("phantom", "reading absent key %s returned %s" % (short(k), short(out.value)))
                    if out.value != model[k]:
                        sim.fail("wrong-value", "reading key %s returned %s, expected %s" % (
                            short(k), short(out.value), short(model[k])))
                elif bool(out.value) != (k in model):
                    sim.fail("membership", "membership of %s answers %r, present: %r" % (
                        short(k), out.value, k in model))
            else:
                if out.fired:
                    sim.probe("read-failed")
                elif o == "has" or k in model:
                    sim.fail("spurious-error", "%s of key %s %r without any fault" % (o, short(k), out))
            if k not in model and any(x[: len(k)] == k for x in model):
                sim.probe("absent-prefix-read")
            if t.root_hash() != old_hash:
                sim.fail("read-changed-root", "a read changed the root hash")
            if out.fired:
                audit(sim, t, model, keys, secure, "audit", how=n)
    audit(sim, t, model, keys, secure, "final")

