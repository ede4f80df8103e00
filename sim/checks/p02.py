"""P02: forged, damaged and relabelled inclusion proofs are not accepted, nor obtained."""
from .. import forge

RUNS = {"quick": 7500, "thorough": 100000}
RULE = ("An adversary between prover and verifiers of every form replays, relabels, corrupts, cuts, splices, retargets and fabricates "
        "inclusion proofs, while the trie changes and announcements lag; a proof may be accepted only if a reference walk of its own nodes "
        "establishes the claim under the verifier's root and its recorded root is that root; honest tries are asked for proofs of the "
        "wrong kind, also while reads fail.")
REAL, STUB = forge.REAL, forge.STUB
ASSUME = ["keccak-256 is collision resistant"]
PROBES = ("accepted", "rejected", "rejected-raised", "false-claim-rejected", "accepted-modified-true", "asked-wrong-kind",
          "asked-under-fault", "verifier-empty")


def plan(rng, i, tier):
    return forge.plan(rng, "poi", tier)


run = forge.run
