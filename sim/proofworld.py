"""Provers, verifiers of every form and a network carrying proofs and root announcements."""
from . import gen, ref
from .kernel import short
from .seams import CLOCK
from .storage import SimStore
from .world import hashed, sim_keys

MPT_FORMS = ["self", "reopen", "reopen-copy", "restored", "replica", "root", "root-codec", "sparse-codec"]
EMPT_FORMS = ["self", "reopen", "sparse", "sparse-copy", "sparse-codec", "sparse-replica", "root", "sparse-root", "root-codec"]

REAL = ["pymt.mpt", "pymt.empt", "pymt.proof", "pymt.utils", "rlp", "Crypto"]
STUB = ["node and data stores (SimStore)", "network (generated delivery sequence)", "clock, another one at each verifier"]


def plan(rng, kinds, mix, big=False):
    """mix: weights of change / announce / prove / deliver steps."""
    level = rng.choice(["mpt", "mpt", "empt"])
    nk = rng.randrange(20, 70) if big else rng.choice([1, 1, 2, 3, 5, 8, 12])
    ks = gen.keys(rng, nk)
    tower = not big and rng.random() < 0.012
    if tower:
        ks = gen.tower(rng)
    ks += gen.near(rng, ks, 5)
    vals = gen.values(rng, 10)
    forms = list(MPT_FORMS if level == "mpt" else EMPT_FORMS)
    rng.shuffle(forms)
    forms = forms[: rng.choice([3, 5, 9])]
    if "self" not in forms:
        forms[0] = "self"
    steps = []
    for _ in range(rng.choice([1, 3, 6]) if not big else nk):
        steps.append({"o": "set", "k": rng.randrange(len(ks)), "v": rng.randrange(len(vals))})
    if tower:
        steps += [{"o": "set", "k": k, "v": rng.randrange(len(vals))} for k in range(len(ks) - 5)]
    steps.append({"o": "announce"})
    proofs = 0
    ver = 0
    n = rng.choice([8, 16, 30, 50])
    flight = []
    for _ in range(n):
        o = gen.pick(rng, mix)
        if o == "change":
            if rng.random() < 0.5:
                steps.append({"o": "set", "k": rng.randrange(len(ks)), "v": rng.randrange(len(vals))})
            elif rng.random() < 0.6:
                steps.append({"o": "del", "k": rng.randrange(len(ks))})
            else:
                steps.append({"o": "undo", "n": rng.randrange(1, 5)})
        elif o == "announce":
            # every verifier, or one of them, hears of the current or of an older version
            s = {"o": "announce", "n": rng.choice([-1, rng.randrange(len(forms))])}
            if rng.random() < 0.3:
                s["back"] = rng.randrange(1, 4)
            if rng.random() < 0.4:
                s["dt"] = round(rng.expovariate(1) * 10, 2)
            steps.append(s)
        elif o == "prove":
            s = {"o": "prove", "k": rng.randrange(len(ks)), "m": proofs}
            steps.append(s)
            # delivery fate: lost, or one or more copies after a delay counted in steps
            for _ in range(rng.choice([0, 1, 1, 1, 2, 3])):
                flight.append([len(steps) + int(rng.expovariate(0.3)), proofs, rng.randrange(len(forms))])
            proofs += 1
        for f in [f for f in flight if f[0] <= len(steps)]:
            flight.remove(f)
            steps.append({"o": "deliver", "m": f[1], "n": f[2], "dt": round(rng.expovariate(1), 3)})
    for f in flight:
        steps.append({"o": "deliver", "m": f[1], "n": f[2], "dt": 1.0})
    p = {"cfg": {"secure": rng.random() < 0.35 and not tower, "level": level, "forms": forms, "kinds": kinds,
                 "skew": [rng.choice([0, 0, 0, -0.4, -90, 61, -86400, 400 * 86400, -3 * 10 ** 8, 2 * 10 ** 9]) for _ in forms]},
         "keys": gen.hexes(ks), "vals": gen.hexes(vals), "steps": steps}
    return gen.times(rng, p)


class World:
    def __init__(self, sim, plan):
        self.sim = sim
        self.keys, self.vals = sim_keys(plan)
        cfg = plan["cfg"]
        self.secure, self.level, self.forms = cfg["secure"], cfg["level"], cfg["forms"]
        P = self.P = sim.P
        self.nodes = SimStore(sim, "t")
        self.data = SimStore(sim, "d")
        if self.level == "mpt":
            self.t = P.MPT(self.nodes, secure=self.secure)
        else:
            self.t = P.EMPT(self.nodes, self.data, secure=self.secure)
        self.model = {}
        self.versions = []
        self.publish()
        self.verifiers = []
        for i in range(len(self.forms)):
            self.verifiers.append([None, None])
            self.announce(i, 0)

    def publish(self):
        self.versions.append((self.t.root(), dict(self.model)))

    def set(self, k, v):
        if self.level == "mpt":
            self.t.update(k, v)
        else:
            self.t[k] = v
        self.model[k] = v

    def delete(self, k):
        if self.level == "mpt":
            self.t.delete(k)
        else:
            del self.t[k]
        del self.model[k]

    def goto(self, content):
        for k in sorted(set(self.model) - set(content)):
            self.delete(k)
        for k in sorted(content):
            if self.model.get(k) != content[k]:
                self.set(k, content[k])

    def fresh(self, content):
        """Another party's trie of that content, built in its own order."""
        if self.level == "mpt":
            r = self.P.MPT({}, secure=self.secure)
            for k in sorted(content, reverse=True):
                r.update(k, content[k])
        else:
            r = self.P.EMPT({}, {}, secure=self.secure)
            for k in sorted(content, reverse=True):
                r[k] = content[k]
        return r

    def announce(self, i, ver):
        """Verifier i now follows version `ver` of the prover."""
        form = self.forms[i]
        root, content = self.versions[ver]
        P, sec = self.P, self.secure
        current = content == self.model
        if form == "self":
            return
        if self.level == "mpt":
            if form == "reopen":
                v = P.MPT(self.nodes, root=root, secure=sec)
            elif form == "reopen-copy":
                v = P.MPT(dict(self.nodes.mem), root=root, secure=sec)
            elif form == "restored":
                v = P.MPT.decode(self.fresh(content).encode())
            elif form == "replica":
                v = self.fresh(content)
            elif form == "root":
                v = P.RootEMPT(root=root, secure=sec)
            elif form == "root-codec":
                v = P.RootEMPT.decode_rlp(self.fresh(content).encode())
            else:
                v = P.SparseEMPT.decode_rlp(self.fresh(content).encode())
        else:
            full = self.t if current else self.fresh(content)
            if form == "reopen":
                v = P.EMPT(self.nodes, dict(self.data.mem), root=root, secure=sec) if root else self.fresh(content)
            elif form == "sparse":
                v = P.SparseEMPT(self.nodes, root=root, secure=sec)
            elif form == "sparse-copy":
                v = full.get_sparse_trie()
            elif form == "sparse-codec":
                v = P.SparseEMPT.decode_rlp(full.get_sparse_trie().encode_rlp())
            elif form == "sparse-replica":
                v = P.SparseEMPT({}, secure=sec)
                for k in sorted(content, key=lambda x: x[::-1]):
                    v[k] = content[k]
            elif form == "root":
                v = P.RootEMPT(root=root, secure=sec)
            elif form == "sparse-root":
                v = full.get_sparse_trie().get_root_trie()
            else:
                v = P.RootEMPT.decode_rlp(full.get_root_trie().encode_rlp())
        self.verifiers[i] = [v, content]

    def verifier(self, i):
        if self.forms[i] == "self":
            return self.t, self.model
        return self.verifiers[i]

    def stored(self, content):
        """What the underlying trie holds."""
        if self.level == "mpt":
            return content
        return {k: ref.data_ref(k, v) for k, v in content.items()}


def run(sim, plan, own):
    w = World(sim, plan)
    kinds = plan["cfg"]["kinds"]
    msgs = {}
    for s in plan["steps"]:
        o = s["o"]
        sim.ops[o] += 1
        if s.get("dt"):
            CLOCK.advance(s["dt"])
        if o == "set":
            w.set(w.keys[s["k"]], w.vals[s["v"]])
            w.publish()
            sim.log("set", w.keys[s["k"]], w.t.root_hash())
        elif o == "del":
            k = w.keys[s["k"]]
            if k in w.model:
                w.delete(k)
                w.publish()
                sim.log("del", k, w.t.root_hash())
                if not w.model:
                    sim.probe("emptied")
        elif o == "undo":
            w.goto(w.versions[max(0, len(w.versions) - 1 - s["n"])][1])
            w.publish()
            sim.probe("contents-return")
        elif o == "announce":
            ver = max(0, len(w.versions) - 1 - s.get("back", 0))
            if s.get("back"):
                sim.fault("net-stale-announcement")
            for i in range(len(w.forms)):
                if s.get("n", -1) in (-1, i):
                    w.announce(i, ver)
        elif o == "prove":
            k = w.keys[s["k"]]
            present = k in w.model
            if not w.model:
                continue
            kind = "poi" if present else "poe"
            if kind not in kinds:
                continue
            fn = w.t.get_proof_of_inclusion if present else w.t.get_proof_of_exclusion
            out = sim.call(fn, k)
            if not out.ok:
                sim.fail("no-proof", "no %s proof for %s key %s of %d entries: %r" % (
                    kind, "present" if present else "absent", short(k), len(w.model), out))
            msgs[s["m"]] = [out.value, kind, dict(w.model), k, 0, len(w.versions)]
            sim.log("prove", kind, k, str(len(out.value.proof)))
            sim.probe(kind)
            if len(out.value.proof) > 66:
                sim.probe("deep-" + kind)
            if len(w.model) == 1:
                sim.probe("single-entry")
            if kind == "poe" and any(x[: len(k)] == k for x in w.model):
                sim.probe("absent-prefix")
            if kind == "poe" and any(k[: len(x)] == x for x in w.model):
                sim.probe("absent-extension")
            if ref.Trie(w.stored(w.model), w.secure).root_raw.__len__() < 32:
                sim.probe("inline-root")
            # the prover itself accepts what it just made
            deliver(sim, w, msgs[s["m"]], w.t, w.model, "prover", own)
        elif o == "deliver":
            m = msgs.get(s["m"])
            if m is None:
                continue
            sim.sig.update(b"d%d.%d;" % (s["m"], s["n"]))
            if m[4]:
                sim.fault("net-duplicate")
            m[4] += 1
            if len(w.versions) > m[5]:
                sim.fault("net-delayed-past-change")
            n = s["n"] % len(w.forms)
            v, content = w.verifier(n)
            skew = plan["cfg"].get("skew", [0])
            skew = skew[n % len(skew)]
            if skew:
                # this verifier lives by another clock
                sim.fault("clock-skew")
                sim.probe("clock-ahead" if skew > 0 else "clock-behind")
            now = CLOCK.now
            CLOCK.jump(skew)
            deliver(sim, w, m, v, content, w.forms[n], own)
            CLOCK.set(now)


def deliver(sim, w, m, v, content, form, own):
    proof, kind, made_for, k, _, _ = m
    before = v.root_hash()
    out = sim.call(v.verify_proof_of_inclusion if kind == "poi" else v.verify_proof_of_exclusion, proof)
    sim.log("verify", form, kind, k, out.ok, out.err or out.value)
    same = content == made_for
    if same:
        sim.probe("fresh-delivery")
        if not out.ok or out.value is not True:
            sim.fail("honest-rejected" if own != "stale" else "returned-rejected",
                     "%s verifier with the prover's %d entries does not accept the honest %s proof of key %s: %r" % (
                         form, len(content), kind, short(k), out))
        sim.probe("accepted-by-" + form)
    else:
        sim.probe("stale-delivery")
        if out.ok and out.value:
            sim.fail("stale-accepted", "%s verifier with other contents (%d entries, proof made for %d) accepts the %s proof of key %s" % (
                form, len(content), len(made_for), kind, short(k)))
    if v.root_hash() != before:
        sim.fail("verify-changed-root", "verification changed the verifier's root")
