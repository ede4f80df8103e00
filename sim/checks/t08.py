"""T08: the work of an operation is bounded by the path of its key, and progress returns when faults stop."""
import random

from .. import gen, ref
from ..kernel import SimCrash, short
from ..seams import CLOCK
from ..storage import Faults, SimStore
from ..world import hashed, sim_keys

RUNS = {"quick": 2600, "thorough": 40000}
RULE = ("Tries, full stores and sparse stores of up to some thousand entries over slow stores whose accesses fail, one or many in a row; "
        "every operation is repeated until it succeeds and every store access of every attempt is counted against a bound that depends "
        "on the number of branchings on the key's path alone.")
REAL = ["pymt.mpt", "pymt.empt", "pymt.proof", "pymt.utils", "rlp", "Crypto"]
STUB = ["node and data stores (SimStore), their latency and failures", "clock"]
ASSUME = ["large tries are laid down in the node store by the reference model and opened at their root"]
PROBES = ("large", "mpt", "empt", "sparse", "retried", "failed-long", "get", "has", "poi", "poe", "verify", "set-new", "set-old", "set-same", "del",
          "absent", "reference", "deep", "reopened", "root", "aborted")


def bulk(spec):
    """The contents of a large trie, from a few numbers."""
    rng = random.Random(spec["seed"])
    n, fam = spec["n"], spec["fam"]
    if fam == "random":
        ks = [rng.randbytes(rng.choice([4, 8])) for _ in range(n)]
    elif fam == "counter":
        ks = [b"user:%06d" % (j * spec["step"]) for j in range(n)]
    elif fam == "nested":
        ks = [b""]
        while len(ks) < n:
            k = rng.choice(ks)
            if len(k) < 20:
                ks.append(k + rng.randbytes(1))
    else:
        ks = [rng.choice([b"a", b"ab", b"b"]) * rng.randrange(1, 9) + b"%x" % rng.randrange(n * 4) for _ in range(n)]
    return {k: (b"v%d" % j) * spec["w"] for j, k in enumerate(dict.fromkeys(ks)) if k or fam == "nested"}


def plan(rng, i, tier):
    form = gen.pick(rng, {"mpt": 5, "empt": 2, "sparse": 2})
    n = rng.choice([0, 1, 4, 20, 70, 150, 300])
    if form == "mpt":
        n = rng.choice([1, 20, 150, 400, 400]) if i % 12 else rng.choice([1200, 2500])
    spec = {"n": n, "fam": rng.choice(["random", "counter", "nested", "words"]), "seed": rng.randrange(1 << 30), "step": rng.choice([1, 3, 17]),
            "w": rng.choice([1, 4, 20])}
    ks = gen.keys(rng, 4)
    vals = gen.values(rng, 5)
    steps = []
    for _ in range(rng.choice([5, 12, 25])):
        o = gen.pick(rng, {"get": 3, "has": 3, "set": 4, "del": 3, "poi": 2, "poe": 2, "root": 0.5, "reopen": 0.6, "reference": 1})
        s = {"o": o, "k": rng.randrange(1 << 16), "w": gen.pick(rng, {"in": 6, "near": 2, "new": 2}), "v": rng.randrange(len(vals)), "x": rng.randrange(64)}
        if rng.random() < 0.3:
            f = gen.store_fault(rng, rng.choice("td") if form == "empt" else "t", errs=("store", "os", "mem", "conn", "timeout"))
            f["len"] = rng.choice([1, 1, 2, 5, 1000000])
            s["f"] = [f]
            s["tries"] = rng.choice([1, 1, 2, 4])
        elif rng.random() < 0.08:
            s["f"] = [gen.line_fault(rng, span=150)]
            s["tries"] = 1
        steps.append(s)
    return gen.times(rng, {"cfg": {"form": form, "secure": rng.random() < 0.3, "spec": spec, "lat": rng.choice([0, 0.0005, 0.02, 1.5])},
                           "keys": gen.hexes(ks), "vals": gen.hexes(vals), "steps": steps})


def branchings(content, k, secure):
    """Number of different places at which other keys leave the path of this one."""
    path = hashed(k, secure)
    n, seen = len(path), set()
    for j in content:
        if j == k:
            continue
        q = hashed(j, secure)
        m = 0
        top = min(n, len(q))
        while m < top and q[m] == path[m]:
            m += 1
        seen.add(2 * m + (1 if m < top and q[m] >> 4 == path[m] >> 4 else 0))
    return len(seen)


def run(sim, plan):
    keys, vals = sim_keys(plan)
    cfg = plan["cfg"]
    form, secure = cfg["form"], cfg["secure"]
    P = sim.P
    model = bulk(cfg["spec"])
    T = ref.Trie(model, secure) if form == "mpt" else None
    store = SimStore(sim, "t", data=T.nodes if T else None)
    data = SimStore(sim, "d")
    stores = {"t": store, "d": data}
    sim.probe(form)
    if len(model) >= 1000:
        sim.probe("large")
    if form == "mpt":
        t = P.MPT(store, root=T.root_raw if len(T.root_raw) < 32 else T.root_hash, secure=secure) if model else P.MPT(store, secure=secure)
    else:
        t = P.EMPT(store, data, secure=secure) if form == "empt" else P.SparseEMPT(store, secure=secure)
        for k in sorted(model):
            t.update(k, model[k])
    names = sorted(model)
    count = {}
    limit = {}

    def access(which):
        def fn(op, key):
            # going through a whole store costs one access for each entry
            count[which, op] = count.get((which, op), 0) + (1 + len(stores[which].mem) if op == "iter" else 1)
            if cfg["lat"]:
                CLOCK.advance(cfg["lat"])
            if sum(count.values()) > 100 * (limit["r"] + limit["w"] + limit["d"]):
                raise SimCrash()  # nothing catches this

        return fn

    store.on_access, data.on_access = access("t"), access("d")

    def key_of(s):
        if s["w"] == "new" or not names:
            return keys[s["k"] % len(keys)]
        k = names[s["k"] % len(names)]
        if s["w"] == "near":
            k = [k + b"\0", k[:-1] or b"q", k[:-1] + bytes([(k[-1] if k else 0) ^ 1]), k + k][s["x"] % 4]
        return k

    def measured(s, k, B, what, fn, *a, fault=None):
        count.clear()
        limit.update(r=8 * B + 14, w=4 * B + 12, d=8)
        with Faults(sim, stores, fault):
            out = sim.call(fn, *a)
        if out.crashed:
            sim.fail("unbounded", "%s does not end: stopped after %d store accesses" % (what, sum(count.values())))
        r = sum(n for (w, op), n in count.items() if w == "t" and op not in ("set", "del"))
        w = sum(n for (w, op), n in count.items() if w == "t" and op in ("set", "del"))
        d = sum(n for (w, op), n in count.items() if w == "d")
        sim.log(s["o"], k, B, r, w, d, out.ok, out.err or "")
        if r > limit["r"] or w > limit["w"] or d > limit["d"]:
            sim.fail("work", "%s in a trie of %d entries with %d branchings on the path: %d reads (bound %d) and %d writes (bound %d) of nodes, "
                     "%d accesses to data (bound %d)" % (what, len(model), B, r, limit["r"], w, limit["w"], d, limit["d"]))
        if B > 12:
            sim.probe("deep")
        return out

    for s in plan["steps"]:
        o = s["o"]
        sim.ops[o] += 1
        k, v = key_of(s), vals[s["v"]]
        present = k in model
        B = branchings(model, k, secure)
        what = "%s of %s key %s" % (o, "present" if present else "absent", short(k))
        if o == "root":
            fn, a, B = (lambda: (t.root_hash(), t.root(), form != "mpt" or t == t)), (), 0
        elif o == "reopen":
            if form == "sparse" and s["x"] % 2 and model:
                t = P.SparseEMPT(store, root=t.root(), secure=secure)
            elif form != "sparse":
                r = t.root() or t.root_hash()
                count.clear()
                limit.update(r=24, w=12, d=8)
                t = P.MPT(store, root=r, secure=secure) if form == "mpt" else P.EMPT(store, data, root=r, secure=secure)
                if sum(count.values()) > 12:
                    sim.fail("work", "opening a trie makes %d store accesses" % sum(count.values()))
            sim.probe("reopened")
            continue
        elif o == "get":
            if form == "sparse":
                fn, a = t.contains, (k,)
            else:
                fn, a = t.get, (k,)
        elif o == "has":
            fn, a = (lambda: k in t) if s["x"] % 2 else (lambda: t.contains(k)), ()
        elif o == "set":
            if s["x"] % 4 == 0 and present:
                v = model[k]
                sim.probe("set-same")
            sim.probe("set-old" if present else "set-new")
            fn, a = t.update, (k, v)
        elif o == "del":
            fn, a = t.delete, (k,)
        elif o == "poi":
            fn, a = t.get_proof_of_inclusion, (k,)
        elif o == "poe":
            fn, a = t.get_proof_of_exclusion, (k,)
        else:
            if form == "mpt":
                continue
            fn, a = t.get_reference, (k,)
        if o in ("get", "del", "poi", "reference"):
            ok = present or (o == "get" and form == "sparse")
        elif o == "poe":
            ok = not present and bool(model)
        else:
            ok = True
        sim.probe(o if o != "set" else "set-old")
        if not ok or not present:
            sim.probe("absent")
        out = None
        for _ in range(s.get("tries", 0)):
            out = measured(s, k, B, what, fn, *a, fault=s["f"])
            if out.ok or not out.fired:
                break
            sim.probe("aborted" if s["f"][0]["s"] == "line" else "retried")
            if s["f"][0].get("len", 1) > 4:
                sim.probe("failed-long")
        done = out is not None and out.ok
        if not done:
            # the faults have stopped: one attempt is enough
            aborted = out is not None and out.fired and s["f"][0]["s"] == "line"
            out = measured(s, k, B, what, fn, *a)
            if aborted and o == "del" and ok and not out.ok and not t.contains(k):
                # it was stopped after it had taken effect
                del model[k]
                names = sorted(model)
                continue
        if out.ok != ok:
            sim.fail("no-progress", "%s without any fault %r" % (what, out))
        if out.ok and o == "set":
            model[k] = v
            names = sorted(model)
        elif out.ok and o == "del":
            del model[k]
            names = sorted(model)
        elif out.ok and o in ("poi", "poe"):
            if len(out.value.proof) > 4 * B + 8:
                sim.fail("work", "%s: the proof has %d nodes with %d branchings on the path" % (what, len(out.value.proof), B))
            verify = t.verify_proof_of_inclusion if o == "poi" else t.verify_proof_of_exclusion
            got = measured(s, k, B, "verification of " + what, verify, out.value)
            if not got.ok or got.value is not True:
                sim.fail("no-progress", "verification of %s %r" % (what, got))
            sim.probe("verify")
        elif out.ok and o in ("get", "has") and (o == "has" or form == "sparse"):
            if out.value is not present:
                sim.fail("wrong", "%s gives %r" % (what, out.value))
        elif out.ok and o == "get" and bytes(out.value) != model[k]:
            sim.fail("wrong", "%s gives %s" % (what, short(out.value)))
    if t.root_hash() != (ref.root_hash(model, secure) if form == "mpt" else ref.empt_root(model, secure)):
        sim.fail("wrong", "the root hash is wrong at the end")
