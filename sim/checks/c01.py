"""C01: timestamps follow the clock, and nothing else depends on it."""
import os
import time as _time

from .. import gen, keyworld, ref, seams
from ..kernel import short
from ..seams import CLOCK, RNG, real
from ..world import sim_keys

RUNS = {"quick": 7200, "thorough": 60000}
RULE = ("One scenario of trie, Merkle tree, signature and password operations is run under a simulated clock that ticks, jumps forwards and "
        "backwards and lives in different time zones, and again under a still clock with the same randomness: proofs carry the reading at "
        "their creation for good, timestamp strings parse back to the second, every other answer is the same in both worlds.")
REAL = ["pymt.mpt", "pymt.empt", "pymt.mt", "pymt.proof", "pymt.keypairs", "pymt.utils", "rlp", "Crypto"]
STUB = ["clock and time zone", "random source (seeded)", "node and data stores (dict)"]
ASSUME = ["POSIX time zone rules with whole-minute offsets"]
PROBES = ("jump-back", "jump-forward", "proof-stamp", "merkle-stamp", "stamp-string", "stamp-bytes", "stamp-datetime", "kept-for-good", "read-later",
          "verify-after-jump", "sign", "crypt", "half-hour-zone", "fold-hour", "edge")
ZONES = ["UTC0", "EST5EDT,M3.2.0,M11.1.0", "IST-5:30", "NPT-5:45", "<+14>-14", "<-12>12", "CET-1CEST,M3.5.0,M10.5.0/3",
         "LMT-0:19", "NST3:30NDT,M3.2.0,M11.1.0", "LHST-10:30LHDT-11,M10.1.0,M4.1.0"]
T0 = [1_600_000_000.0, 0.0, 1.5, 951_782_399.999, 1_709_164_799.25, 4_102_444_799.0, 1_604_211_000.5, 1_604_214_000.0,
      1_603_585_500.0, 2_147_483_647.9, 978_307_199.999999, 86399.0]


def plan(rng, i, tier):
    nk = rng.choice([1, 3, 6])
    ks = gen.keys(rng, nk)
    ks += gen.near(rng, ks, 2)
    vals = gen.values(rng, 6)
    steps = []
    for _ in range(rng.choice([4, 10, 18])):
        o = gen.pick(rng, {"set": 3, "del": 1, "prove": 3, "verify": 2, "put": 1.5, "mprove": 1.5, "jump": 3, "stamp": 2.5,
                           "sign": 0.4, "crypt": 0.7, "codec": 1})
        s = {"o": o, "k": rng.randrange(len(ks)), "v": rng.randrange(len(vals)), "x": rng.randrange(1 << 12)}
        if o == "jump":
            s["d"] = rng.choice([-86400.0 * 3650, -3600.0, -1800.0, -1.0, -0.001, 0.001, 1.0, 59.7, 3600.0, 86400.0 * 400, 86400.0 * 3650, 86400.0 * 365 * 45, -86400.0 * 365 * 45])
            if rng.random() < 0.25:
                # to just before a date, hour, minute or second begins
                s["edge"] = [rng.choice([86400, 86400, 3600, 60, 1]), rng.random()]
        s["dt"] = round(rng.expovariate(2), 4)
        if steps and steps[-1].get("edge") and rng.random() < 0.8:
            s.update(o=rng.choice(["stamp", "stamp", "prove"]), dt=0.0)
        steps.append(s)
    p = {"cfg": {"secure": rng.random() < 0.3, "level": rng.choice(["mpt", "empt", "sparse"])}, "keys": gen.hexes(ks),
         "vals": gen.hexes(vals), "steps": steps}
    p["t0"] = rng.choice(T0 + [rng.randrange(0, 2_500_000_000) + rng.random()])
    p["tz"] = rng.choice(ZONES)
    p["tick"] = rng.choice([0.0, 0.0, 0.0004, 0.3])
    return p


def zone(tz):
    os.environ["TZ"] = tz
    _time.tzset()


def instant(d, lo, hi, slack):
    """Whether datetime d names an instant within [lo - slack, hi]."""
    if d.tzinfo is not None:
        c = [d.timestamp()]
    else:
        c = [d.replace(fold=f).timestamp() for f in (0, 1)]
    return any(lo - slack - 1e-5 <= t <= hi + 1e-5 for t in c)


def scenario(sim, plan, P, jumps):
    """Answers of the scenario; with `jumps` the clock misbehaves and timestamps are judged."""
    keys, vals = sim_keys(plan)
    secure, level = plan["cfg"]["secure"], plan["cfg"]["level"]
    t = P.MPT({}, secure=secure) if level == "mpt" else P.EMPT({}, {}, secure=secure) if level == "empt" else P.SparseEMPT({}, secure=secure)
    mt = P.MerkleTree(secure=bool(plan["cfg"]["secure"]))
    leaves, model, proofs, mproofs, ans = [], {}, [], [], []
    stamped = []  # (proof, its timestamp)
    party = None
    last_jump = False

    def stamp(p, lo, tag):
        if not jumps:
            return
        hi = CLOCK.now
        if x % 5 < 2:
            # nobody looks at it for a while
            CLOCK.advance((0.75, 5400.0)[x % 5])
            sim.probe("read-later")
        try:
            ts = p.timestamp
            d = real.datetime.fromisoformat(ts.decode() if isinstance(ts, bytes) else str(ts))
        except (ValueError, AttributeError) as e:
            sim.fail("stamp-unreadable", "proof timestamp %s does not read as a point in time (%s)" % (short(p.timestamp), e))
        if not instant(d, lo, hi, 0 if d.microsecond else 1):
            sim.fail("stamp-wrong", "a proof made between clock readings %.6f and %.6f (zone %s) carries timestamp %s" % (
                lo, hi, plan["tz"], ts))
        sim.probe(tag)
        stamped.append((p, ts))

    for n, s in enumerate(plan["steps"]):
        o, k, x = s["o"], keys[s["k"]], s["x"]
        if jumps:
            sim.ops[o] += 1
            CLOCK.advance(s["dt"])
        lo = CLOCK.now
        if o == "jump":
            if jumps:
                CLOCK.set(max(0.0, CLOCK.now + s["d"]))
                if s.get("edge"):
                    unit, part = s["edge"]
                    off = real.localtime(CLOCK.now).tm_gmtoff
                    before = (int(CLOCK.now + off) // unit + 1) * unit - off
                    CLOCK.set(max(0.0, before - part * 3 * (plan.get("tick") or 0.01)))
                    sim.probe("edge")
                sim.fault("clock-jump-back" if s["d"] < 0 else "clock-jump-forward")
                sim.probe("jump-back" if s["d"] < 0 else "jump-forward")
                last_jump = True
                if plan["tz"][:3] in ("IST", "NPT", "NST", "LHS"):
                    sim.probe("half-hour-zone")
                lt = real.localtime(CLOCK.now)
                if real.localtime(CLOCK.now + 3600)[:5] == lt[:5] or real.localtime(max(0, CLOCK.now - 3600))[:5] == lt[:5]:
                    sim.probe("fold-hour")
        elif o == "set":
            t[k] = vals[s["v"]]
            model[k] = vals[s["v"]]
            ans.append((n, "root", t.root_hash()))
        elif o == "del":
            if k in model:
                del t[k]
                del model[k]
            ans.append((n, "root", t.root_hash()))
        elif o == "prove":
            if model:
                p = (t.get_proof_of_inclusion if k in model else t.get_proof_of_exclusion)(k)
                stamp(p, lo, "proof-stamp")
                proofs.append(p)
                ans.append((n, "proof", p.type, p.target_key, p.trie_root, tuple(p.proof)))
        elif o == "verify":
            if proofs:
                p = proofs[x % len(proofs)]
                out = sim.call(t.verify_proof_of_inclusion if p.type == b"MPT-POI" else t.verify_proof_of_exclusion, p)
                ans.append((n, "verify", out.ok and bool(out.value), out.err))
                if jumps and last_jump:
                    sim.probe("verify-after-jump")
            if mproofs:
                p = mproofs[x % len(mproofs)]
                out = sim.call(mt.verify_proof_of_inclusion, p)
                ans.append((n, "mverify", out.ok and bool(out.value)))
        elif o == "put":
            v = b"leaf%d" % n
            mt.put(v)
            mt.make_tree()
            leaves.append(v)
            ans.append((n, "mroot", mt.get_merkle_root() if hasattr(mt, "get_merkle_root") else None))
        elif o == "mprove":
            if leaves:
                lo = CLOCK.now
                p = mt.get_proof_of_inclusion(leaves[x % len(leaves)])
                stamp(p, lo, "merkle-stamp")
                mproofs.append(p)
                out = sim.call(mt.verify_proof_of_inclusion, p)
                ans.append((n, "mproof", p.target_key, p.trie_root, tuple(p.proof), out.ok and bool(out.value)))
                if x % 3 == 0:
                    raw = p.encode_rlp()
                    if jumps:
                        CLOCK.advance(7.5)
                    q = P.Proof.decode_rlp(raw)
                    if q.timestamp != p.timestamp:
                        sim.fail("stamp-changed", "a decoded proof has timestamp %s, the original %s" % (q.timestamp, p.timestamp))
                    out = sim.call(mt.verify_proof_of_inclusion, q)
                    ans.append((n, "mproof2", out.ok and bool(out.value)))
        elif o == "stamp" and jumps:
            U = P.Utils
            m = x % 3
            if m == 2:
                d = U.get_datetime_stamp()
                if not instant(d, lo, CLOCK.now, 0):
                    sim.fail("datetime", "get_datetime_stamp between clock readings %.6f and %.6f (zone %s) is %s" % (
                        lo, CLOCK.now, plan["tz"], d))
                sim.probe("stamp-datetime")
            else:
                ts = U.get_timestamp_string() if m else U.get_timestamp().decode()
                hi = CLOCK.now
                if x % 7 == 0:
                    CLOCK.advance(1e6)  # parsed much later
                out = sim.call(U.from_timstamp_string, ts)
                if not out.ok:
                    sim.fail("unparsable", "timestamp %r made at clock reading %.3f (zone %s) cannot be parsed: %r" % (ts, lo, plan["tz"], out))
                d = out.value
                if d.tzinfo is None:
                    sim.fail("naive", "timestamp %r parses to %s, which names no instant" % (ts, d))
                if not instant(d, lo, hi, 1):
                    sim.fail("parse", "timestamp %r made at clock reading %.3f (zone %s) parses to %s, %.3f s off" % (
                        ts, lo, plan["tz"], d, d.timestamp() - lo))
                sim.probe("stamp-string" if m else "stamp-bytes")
        elif o == "sign":
            if party is None:
                party = keyworld.party(P, x)
            v = vals[s["v"]]
            sig = party.sign(v)
            if jumps:
                CLOCK.advance(86400.0 * 365)
            ans.append((n, "sign", party.signature_valid(v, sig), party.signature_valid(v + b"!", sig)))
            sim.probe("sign")
        elif o == "crypt":
            v = vals[s["v"]]
            c = P.Utils.encrypt(v, "pw%d" % x)
            if jumps:
                CLOCK.set(max(0.0, CLOCK.now + (x % 9 - 4) * 1e7))
            out = sim.call(P.Utils.decrypt, c, "pw%d" % x)
            ans.append((n, "crypt", out.ok and out.value == v, len(c)))
            sim.probe("crypt")
        elif o == "codec":
            if level != "empt":
                raw = t.encode() if level == "mpt" else t.encode_rlp()
                r = (P.MPT.decode if level == "mpt" else P.SparseEMPT.decode_rlp)(raw)
                ans.append((n, "codec", len(raw), r.root_hash()))
    for p, ts in stamped:
        if p.timestamp != ts:
            sim.fail("stamp-changed", "a proof's timestamp was %s when made and is %s now" % (ts, p.timestamp))
        sim.probe("kept-for-good")
    return ans


def run(sim, plan):
    seed = "%s" % plan.get("seed", 0)
    a = scenario(sim, plan, sim.P, True)
    for x in a:
        sim.log(*[y if isinstance(y, (str, bytes)) else repr(y) for y in x])
    # the same inputs and randomness under a clock that stands still elsewhere
    spent = CLOCK.elapsed
    CLOCK.reset(1_234_567_890.0)
    zone("UTC0")
    RNG.reset(seed)
    b = scenario(sim, plan, seams.load_pymt(), False)
    CLOCK.elapsed = spent
    for x, y in zip(a, b):
        if x != y:
            sim.fail("clock-dependent", "step %d (%s) answers %s under one clock and %s under another" % (
                x[0], x[1], short(x[2:]), short(y[2:])))
    zone(plan["tz"])
