"""E04: full, sparse and root-only forms agree and then evolve independently."""
from .. import gen, ref
from ..kernel import short
from ..seams import CLOCK
from ..storage import Faults, SimStore
from ..world import check_store, enc, encmap, hashed, keep, sim_keys

RUNS = {"quick": 3600, "thorough": 40000}
RULE = ("A full store, a sparse replica fed its updates over a lossy, duplicating, reordering network, and sparse and root-only "
        "forms derived at drawn moments (also while the store fails); every form is compared with the contents of its moment, "
        "proofs are exchanged between all forms, and every form is changed on its own while the others must not move.")
REAL = ["pymt.empt", "pymt.mpt", "pymt.proof", "pymt.utils", "rlp", "Crypto"]
STUB = ["node and data stores (SimStore)", "network", "store failures"]
PROBES = ("derived-sparse", "derived-root", "derived-codec", "sparse-of-emptied", "replica-caught-up", "replica-behind",
          "form-changed", "derive-failed", "object", "bytearray", "stored-again", "proof-exchanged")


def plan(rng, i, tier):
    nk = rng.choice([1, 2, 3, 5, 8, 12])
    ks = gen.keys(rng, nk)
    ks += gen.near(rng, ks, 3)
    vals = gen.values(rng, 12)
    loss = rng.choice([0, 0.2, 0.5])
    steps = []
    flight = []
    nmsg = 0
    sent = []

    def change():
        s = {"o": "set" if rng.random() < 0.7 else "del", "k": rng.randrange(len(ks)), "v": rng.randrange(len(vals)),
             "as": rng.choice(["b", "b", "obj", "ba", "obj+", "ba+"])}
        return s

    for _ in range(rng.choice([5, 10, 20, 35])):
        o = gen.pick(rng, {"change": 6, "derive": 2.5, "formchange": 2, "check": 2, "proofs": 1, "resend": 1})
        if o == "change":
            s = change()
            s["m"] = nmsg
            steps.append(s)
            for _ in range(1 + (rng.random() < 0.2)):
                if rng.random() >= loss:
                    flight.append([len(steps) + int(rng.expovariate(0.5)), nmsg])
            sent.append(nmsg)
            nmsg += 1
        elif o == "derive":
            s = {"o": "derive", "form": rng.choice(["sparse", "sparse", "root", "sparse-root", "sparse-codec", "root-codec"])}
            if rng.random() < 0.15:
                s["f"] = [gen.store_fault(rng, "t", write=False)]
            steps.append(s)
        elif o == "formchange":
            s = change()
            s.update(o="form-" + s["o"], n=rng.randrange(8))
            steps.append(s)
        elif o == "resend" and sent:
            flight.append([len(steps) + 1, rng.choice(sent)])
        elif o in ("check", "proofs"):
            steps.append({"o": o, "k": rng.randrange(len(ks)), "n": rng.randrange(8)})
        for f in [f for f in flight if f[0] <= len(steps)]:
            flight.remove(f)
            steps.append({"o": "deliver", "m": f[1], "dt": round(rng.expovariate(1), 3)})
    steps.append({"o": "catchup"})
    steps.append({"o": "check", "k": 0, "n": 0})
    return gen.times(rng, {"cfg": {"secure": rng.random() < 0.35}, "keys": gen.hexes(ks), "vals": gen.hexes(vals), "steps": steps})


class Form:
    def __init__(self, kind, obj, model):
        self.kind, self.obj, self.model = kind, obj, dict(model)
        self.kept = {}


def run(sim, plan):
    keys, vals = sim_keys(plan)
    secure = plan["cfg"]["secure"]
    P = sim.P
    t, d = SimStore(sim, "t"), SimStore(sim, "d")
    stores = {"t": t, "d": d}
    full = Form("full", P.EMPT(t, d, secure=secure), {})
    replica = Form("replica", P.SparseEMPT({}, secure=secure), {})
    forms = [full, replica]
    log = []  # (key, value or None) in order
    got = {}
    applied = [0]

    def apply_ready():
        while applied[0] in got:
            k, v = got[applied[0]]
            r = replica
            if v is None:
                if k in r.model:
                    r.obj.delete(k)
                    del r.model[k]
            else:
                r.obj.update(k, v)
                r.model[k] = v
            applied[0] += 1

    def check_form(f, tag, ks):
        m = encmap(f.model)
        want = ref.empt_root(m, secure)
        out = sim.call(f.obj.root_hash)
        if not out.ok or out.value != want:
            sim.fail(tag + "-root", "%s form: root hash %r, reference root of its %d entries %s" % (
                f.kind, out, len(m), short(want)))
        if "root" in f.kind:
            return
        if f.kind == "full":
            check_store(sim, f.obj, f.model, ks, secure, tag)
        for j, k in enumerate(ks):
            out = sim.call((lambda: k in f.obj) if j % 2 else (lambda: f.obj.contains(k)))
            if not out.ok or bool(out.value) != (k in m):
                sim.fail(tag + "-membership", "%s form: membership of key %s %r, present: %r" % (f.kind, short(k), out, k in m))
            out = sim.call(f.obj.get_reference, k)
            if (k in m) != out.ok:
                sim.fail(tag + "-reference", "%s form: reference of key %s %r, present: %r" % (f.kind, short(k), out, k in m))
            if out.ok:
                r = out.value
                if (bytes(r.key), bytes(r.data)) != (k, m[k]) or r.encode() != ref.data_ref(k, m[k]) or r != P.DataReference(k, m[k]):
                    sim.fail(tag + "-reference", "%s form: the reference of key %s is not that of its value" % (f.kind, short(k)))

    def exchange(k, provers, verifiers, model):
        m = encmap(model)
        present = k in m
        if not m:
            return
        root = ref.empt_root(m, secure)
        want = None
        for p in provers:
            out = sim.call(p.obj.get_proof_of_inclusion if present else p.obj.get_proof_of_exclusion, k)
            if not out.ok:
                sim.fail("no-proof", "%s form gives no proof for %s key %s: %r" % (
                    p.kind, "present" if present else "absent", short(k), out))
            proof = out.value
            got = ref.establish(proof.proof, root, hashed(k, secure))
            if got != (("present", ref.data_ref(k, m[k])) if present else ("absent", None)):
                sim.fail("bad-proof", "%s form: proof of key %s establishes %s" % (p.kind, short(k), got[0]))
            mine = (proof.type, proof.target_key, proof.trie_root, tuple(proof.proof))
            if want is not None and mine != want:
                sim.fail("proofs-differ", "the %s form's proof of key %s differs from another form's" % (p.kind, short(k)))
            want = mine
            for v in verifiers:
                r = sim.call(v.obj.verify_proof_of_inclusion if present else v.obj.verify_proof_of_exclusion, proof)
                if not r.ok or r.value is not True:
                    sim.fail("proof-rejected", "%s form does not accept the %s form's proof of %s key %s: %r" % (
                        v.kind, p.kind, "present" if present else "absent", short(k), r))
                sim.probe("proof-exchanged")

    def note(s):
        if s["o"].endswith("set") and s["as"] != "b":
            sim.probe("object" if s["as"].startswith("obj") else "bytearray")
            sim.probe("stored-again") if s["as"].endswith("+") else None

    for s in plan["steps"]:
        o = s["o"]
        sim.ops[o] += 1
        if s.get("dt"):
            CLOCK.advance(s["dt"])
        if o in ("set", "del"):
            note(s)
            k = keys[s["k"]]
            if o == "set":
                v, twin = keep(full.kept, k, vals[s["v"]], s["as"])
                full.obj[k] = v
                full.model[k] = twin
                log.append((k, twin))
            elif k in full.model:
                del full.obj[k]
                del full.model[k]
                log.append((k, None))
            else:
                log.append((k, None))
            sim.log(o, k, full.obj.root_hash())
        elif o == "deliver":
            n = s["m"]
            if n < len(log):
                if n in got:
                    sim.fault("net-duplicate")
                elif n > applied[0]:
                    sim.fault("net-reorder")
                got[n] = log[n]
                apply_ready()
                sim.sig.update(b"d%d;" % n)
        elif o == "catchup":
            for n in range(len(log)):
                if n not in got:
                    sim.fault("net-loss-repaired")
                got[n] = log[n]
            apply_ready()
            sim.probe("replica-caught-up")
        elif o == "derive":
            before = (t.writes, t.dels, d.writes, d.dels)
            sp = [f for f in forms if f.kind in ("sparse", "replica", "sparse-codec")]
            src = full

            def make():
                if s["form"] == "sparse":
                    return full.obj.get_sparse_trie()
                if s["form"] == "root":
                    return full.obj.get_root_trie()
                if s["form"] == "sparse-codec":
                    return P.SparseEMPT.decode_rlp(full.obj.get_sparse_trie().encode_rlp())
                if s["form"] == "root-codec":
                    return P.RootEMPT.decode_rlp(full.obj.get_root_trie().encode_rlp())
                return src.obj.get_root_trie()

            if s["form"] == "sparse-root":
                src = sp[len(log) % len(sp)]
            with Faults(sim, stores, s.get("f")):
                out = sim.call(make)
            sim.log("derive", s["form"], out.ok, out.err or "")
            if not out.ok:
                if not out.fired:
                    sim.fail("derive-failed", "the %s form of a store with %d entries %r" % (s["form"], len(src.model), out))
                sim.probe("derive-failed")
                continue
            if (t.writes, t.dels, d.writes, d.dels) != before:
                sim.fail("derive-wrote", "deriving the %s form wrote to the store" % s["form"])
            f = Form(s["form"], out.value, src.model)
            sim.probe({"sparse": "derived-sparse", "root": "derived-root", "sparse-root": "derived-root"}.get(
                s["form"], "derived-codec"))
            if not src.model and len(log):
                sim.probe("sparse-of-emptied")
            if len(forms) > 9:
                forms.pop(2)
            forms.append(f)
            check_form(f, "derived", keys)
        elif o.startswith("form-"):
            cand = [f for f in forms[2:] if f.kind in ("sparse", "sparse-codec")]
            if not cand:
                continue
            note(s)
            f = cand[s["n"] % len(cand)]
            k = keys[s["k"]]
            before = (t.writes, t.dels, d.writes, d.dels)
            if o == "form-set":
                v, twin = keep(f.kept, k, vals[s["v"]], s["as"])
                f.obj[k] = v
                f.model[k] = twin
            elif k in f.model:
                del f.obj[k]
                del f.model[k]
            sim.log(o, f.kind, k)
            sim.probe("form-changed")
            if (t.writes, t.dels, d.writes, d.dels) != before:
                sim.fail("form-wrote", "changing a sparse form wrote to the full store's storage")
            for g in forms:
                check_form(g, "evolved", [k])
        elif o == "check":
            for g in forms:
                check_form(g, "check", keys)
            if replica.model != full.model:
                sim.probe("replica-behind")
        elif o == "proofs":
            src = forms[s["n"] % len(forms)]
            m = encmap(src.model)
            group = [f for f in forms if encmap(f.model) == m]
            k = keys[s["k"]]
            exchange(k, [f for f in group if "root" not in f.kind], group, src.model)
    for f in forms:
        check_form(f, "final", keys)
    m = encmap(full.model)
    group = [f for f in forms if encmap(f.model) == m]
    for k in keys:
        exchange(k, [f for f in group if "root" not in f.kind], group, full.model)
