"""P05: a proof is bound to the exact contents it was made for."""
from .. import proofworld as pw

RUNS = {"quick": 4000, "thorough": 60000}
RULE = ("Proofs of both kinds and root announcements overtake one another; a proof is rejected while the verifier's contents "
        "differ from those it was made for, accepted whenever they agree (again).")
REAL, STUB = pw.REAL, pw.STUB
PROBES = ("poi", "poe", "fresh-delivery", "deep-poi", "stale-delivery", "contents-return", "emptied")


def plan(rng, i, tier):
    return pw.plan(rng, ["poi", "poe"], {"change": 5, "announce": 3, "prove": 4}, big=i % 25 == 3)


def run(sim, plan):
    pw.run(sim, plan, "stale")
