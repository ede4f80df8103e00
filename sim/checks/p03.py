"""P03: every honest exclusion proof is accepted by every verifier with that root."""
from .. import proofworld as pw

RUNS = {"quick": 3600, "thorough": 60000}
RULE = ("A prover changing its trie, verifiers of every form following it, exclusion proofs delayed, duplicated, reordered; "
        "a proof delivered to a verifier with the contents it was made for must be accepted.")
REAL, STUB = pw.REAL, pw.STUB
PROBES = ("poe", "single-entry", "inline-root", "fresh-delivery", "clock-ahead", "clock-behind", "deep-poe", "absent-prefix", "absent-extension") + tuple(
    "accepted-by-" + f for f in sorted(set(pw.MPT_FORMS + pw.EMPT_FORMS)))


def plan(rng, i, tier):
    return pw.plan(rng, ["poe"], {"change": 2, "announce": 3, "prove": 5}, big=i % 25 == 3)


def run(sim, plan):
    pw.run(sim, plan, "poe")
