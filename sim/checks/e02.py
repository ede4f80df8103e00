"""E02: the full store is a map whose failed operations lose nothing."""
from .. import gen
from ..kernel import short
from ..storage import Faults, SimStore
from ..world import BAD_KEYS, BAD_VALUES, check_store, mkval, same, sim_keys

RUNS = {"quick": 6000, "thorough": 60000}
RULE = ("Histories of all mapping operations on one full store; any call of either backing store may be rejected, once or "
        "for the rest of the operation; a failed operation must raise and lose nothing, and is repeated once the stores work.")
REAL = ["pymt.empt", "pymt.mpt", "pymt.utils", "rlp", "Crypto", "collections.abc.MutableMapping"]
STUB = ["node and data stores (SimStore)", "store failures"]
ASSUME = ["a rejected store call has no effect", "a store reports failures by an exception other than KeyError"]
PROBES = ("set-failed", "overwrite-failed", "del-failed", "pop-failed", "clear-failed", "retried", "clear", "popitem",
          "setdefault", "object", "emptied", "bad-argument")
ERR = ("store", "os", "conn", "timeout", "mem", "val", "intr")


def plan(rng, i, tier):
    big = i % 30 == 13
    nk = rng.randrange(15, 45) if big else rng.choice([1, 2, 3, 5, 8])
    ks = gen.keys(rng, nk)
    ks += gen.near(rng, ks, 2)
    vals = gen.values(rng, 12, big=not big)
    fp = rng.choice([0, 0.2, 0.4, 0.7])
    steps = []
    for _ in range(rng.choice([3, 8, 16, 30]) if not big else 60):
        o = gen.pick(rng, {"set": 7, "del": 3, "get": 1, "has": 0.5, "pop": 1.2, "popitem": 0.6, "clear": 0.25, "len": 0.4,
                           "iter": 0.4, "setdefault": 0.8, "reopen": 0.3,
                           "bad": 0.6, "items": 0.4})
        s = {"o": o, "k": rng.randrange(len(ks))}
        if o in ("set", "setdefault"):
            s["v"] = rng.randrange(len(vals))
            s["as"] = rng.choice(["b", "b", "b", "obj", "ba"])
        if o == "bad":
            s.update(what=rng.choice(["set", "setv", "setv", "setdefault", "del", "get", "pop"]), x=rng.randrange(40))
            steps.append(s)
            continue
        if o in ("set", "del", "get"):
            s["api"] = rng.randrange(2)
        if o == "pop":
            s["dflt"] = rng.random() < 0.4
        if rng.random() < fp and o != "reopen":
            fs = [gen.store_fault(rng, rng.choice("td"), errs=ERR, after=False)]
            if rng.random() < 0.15:
                fs.append(gen.store_fault(rng, "t" if fs[0]["s"] == "d" else "d", errs=ERR, after=False))
            if o == "clear":
                for f in fs:
                    f["n"] = rng.randrange(25)
            s["f"] = fs
        steps.append(s)
    return {"cfg": {"secure": rng.random() < 0.3, "every": 10 if big else 1}, "keys": gen.hexes(ks),
            "vals": gen.hexes(vals), "steps": steps}


MISSING = object()


def run(sim, plan):
    keys, vals = sim_keys(plan)
    secure = plan["cfg"]["secure"]
    t, d = SimStore(sim, "t"), SimStore(sim, "d")
    stores = {"t": t, "d": d}
    st = {"e": sim.P.EMPT(t, d, secure=secure), "m": {}}
    every = plan["cfg"]["every"]

    def attempt(s, faults):
        """One execution of the step; returns its outcome and checks it if it returned."""
        e, m = st["e"], st["m"]
        o, k = s["o"], keys[s["k"]]
        v = mkval(vals[s["v"]], s["as"]) if "v" in s else None
        if s.get("as") == "obj":
            sim.probe("object")
        api = s.get("api")
        fn = {
            "set": (lambda: e.update(k, v)) if api else (lambda: e.__setitem__(k, v)),
            "del": (lambda: e.delete(k)) if api else (lambda: e.__delitem__(k)),
            "get": (lambda: e.get(k)) if api else (lambda: e[k]),
            "has": lambda: k in e,
            "pop": (lambda: e.pop(k, MISSING)) if s.get("dflt") else (lambda: e.pop(k)),
            "popitem": lambda: e.popitem(),
            "clear": lambda: e.clear(),
            "len": lambda: len(e),
            "iter": lambda: [bytes(x) for x in e],
            "setdefault": lambda: e.setdefault(k, v),
            "items": lambda: list(e.items()) if k[:1] < b"\x40" else list(zip(e.keys(), e.values())),
        }[o]
        was = dict(m)
        with Faults(sim, stores, faults):
            out = sim.call(fn)
        sim.log(o, k, out.ok, out.err or ("done" if o in ("set", "del", "clear") else short(out.value)))
        present = k in m
        if out.ok:
            r = out.value
            if out.fired and o in ("set", "del", "pop", "popitem", "clear"):
                # returning although a store refused a call: allowed only with the full effect, checked below
                sim.probe("returned-despite-refusal")
            if o == "set":
                m[k] = v
            elif o == "del":
                if not present:
                    sim.fail("delete-absent", "deleting absent key %s returned" % short(k))
                del m[k]
            elif o == "pop":
                if present:
                    if not same(r, m[k]):
                        sim.fail("wrong-value", "pop of key %s returned %s, expected %s" % (short(k), short(r), short(m[k])))
                    del m[k]
                elif r is not MISSING:
                    sim.fail("phantom", "pop of absent key %s returned %s" % (short(k), short(r)))
            elif o == "popitem":
                if not (isinstance(r, tuple) and len(r) == 2 and r[0] in m and same(r[1], m[r[0]])):
                    sim.fail("wrong-value", "popitem returned %s, not an entry of the store" % short(r))
                del m[r[0]]
                sim.probe("popitem")
            elif o == "clear":
                m.clear()
                sim.probe("clear")
            elif o == "setdefault":
                if not same(r, m[k] if present else v):
                    sim.fail("wrong-value", "setdefault of key %s returned %s" % (short(k), short(r)))
                if not present:
                    m[k] = v
                sim.probe("setdefault")
            elif o == "get":
                if not present or not same(r, m[k]):
                    sim.fail("wrong-value", "reading key %s returned %s, expected %s" % (
                        short(k), short(r), short(m[k]) if present else "an error"))
            elif o == "has" and bool(r) != present:
                sim.fail("membership", "membership of %s answers %r, present: %r" % (short(k), r, present))
            elif o == "len" and r != len(m):
                sim.fail("len", "length is %r, the store holds %d entries" % (r, len(m)))
            elif o == "items":
                if sorted(bytes(x) for x, _ in r) != sorted(m) or not all(same(y, m[bytes(x)]) for x, y in r):
                    sim.fail("items", "items, or keys and values, gave %s; the store holds %d entries" % (short(r), len(m)))
            elif o == "iter" and sorted(r) != sorted(m):
                sim.fail("iter", "iteration gave %d keys, the store holds %d" % (len(r), len(m)))
        else:
            expected = (o in ("get", "del") and not present) or (o == "pop" and not present and not s.get("dflt")) or (
                o == "popitem" and not m)
            if not out.fired and not expected:
                sim.fail("spurious-error", "%s of key %s %r although no store refused anything" % (o, short(k), out))
            if out.fired:
                sim.probe({"set": "overwrite-failed" if present else "set-failed"}.get(o, o + "-failed"))
                if o == "clear":
                    # entries removed before the failure stay removed, nothing else is lost
                    left = sim.call(lambda: sorted(bytes(x) for x in e))
                    if not left.ok or not set(left.value) <= set(was):
                        sim.fail("clear-failed", "after a failed clear iteration %r" % left)
                    st["m"] = {x: was[x] for x in left.value}
        return out

    for n, s in enumerate(plan["steps"]):
        sim.ops[s["o"]] += 1
        if s["o"] == "reopen":
            e = st["e"]
            st["e"] = sim.P.EMPT(t, d, root=e.root() or e.root_hash(), secure=secure)
            continue
        if s["o"] == "bad":
            # an argument the store cannot take: raises, and nothing is changed
            e, k, w = st["e"], keys[s["k"]], s["what"]
            b = (BAD_VALUES if w in ("setv", "setdefault") else BAD_KEYS)[s["x"] % (10 if w in ("setv", "setdefault") else 8)]
            if w == "setdefault" and k in st["m"]:
                continue
            out = sim.call({"set": lambda: e.update(b, b"value"), "setv": lambda: e.update(k, b), "del": lambda: e.delete(b),
                            "setdefault": lambda: e.setdefault(k, b), "get": lambda: e.get(b), "pop": lambda: e.pop(b)}[w])
            sim.log("bad", w, k, out.ok, out.err or "")
            if out.ok:
                return  # nothing is promised about what it means
            sim.probe("bad-argument")
            check_store(sim, e, st["m"], keys, secure, "after-bad-" + w, n)
            continue
        out = attempt(s, s.get("f"))
        if out.fired or n % every == 0:
            check_store(sim, st["e"], st["m"], keys, secure, "after-failed-" + s["o"] if out.fired and not out.ok else "audit", n)
        if not out.ok and out.fired:
            sim.probe("retried")
            attempt(s, None)
            check_store(sim, st["e"], st["m"], keys, secure, "retried-" + s["o"], n)
        if not st["m"] and len(plan["steps"]) > 1:
            sim.probe("emptied")
    check_store(sim, st["e"], st["m"], keys, secure, "final")
    # the stores themselves hold what was acknowledged: a handle opened afresh sees the same
    e = st["e"]
    again = sim.P.EMPT(t, d, root=e.root() or e.root_hash(), secure=secure)
    check_store(sim, again, st["m"], keys, secure, "reopened")
