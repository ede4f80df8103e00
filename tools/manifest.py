"""Rewrites the `fixed` list of known_findings.json and MANIFEST.json from the tables below."""
import json
import os
import subprocess

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIXED = [
    ("T01", "reading an absent key", "MPT.get/contains/update/delete of an absent key that is a prefix or an extension of a present key found, changed or removed another entry"),
    ("P02", "inclusion proofs of absent", "an inclusion proof of an absent key was produced and accepted (the key a prefix or extension of a present one)"),
    ("P01", "accept inclusion proofs of tries whose root", "honest inclusion proofs were refused for tries whose root node is shorter than 32 bytes"),
    ("P03", "exclusion proofs show", "honest exclusion proofs were refused; exclusion proofs of present keys were accepted (P04)"),
    ("T02", "tries can be hashed", "hash() of a trie raised TypeError and == of equal tries was false"),
    ("T06", "a trie emptied", "a trie emptied by deletions could not be encoded"),
    ("E04", "sparse tries accept", "SparseEMPT refused encodable objects as keys and values that EMPT accepts and could not give its root-only form (also P01)"),
    ("E01", "bytearray values", "values given as bytearray were stored but could not be read or proved (also E02, E04)"),
    ("E02", "a failed update or delete", "a failed update or delete of the full store lost the previous data of the key and could not be repeated"),
    ("E03", "the trie of a full store", "EMPT.rebuild_trie raised, so a crash between the two stores could not be repaired"),
    ("E05", "full and sparse stores", "EMPT and SparseEMPT objects created without storages shared one dictionary"),
    ("M01", "Merkle tree roots and proofs cover", "roots and proofs ignored leaves added after the first read, and trees with secure=True rejected their own proofs"),
    ("M02", "Merkle tree proofs of values", "proofs of values that are not leaves were produced and accepted (odd leaves, inner nodes, leaves of another tree)"),
    ("P06", "proofs of Merkle trees can", "proofs of Merkle trees could not be encoded and decoded without change"),
    ("T05", "iterating over a proof", "iterating over a proof disturbed every other iteration over it"),
    ("C01", "timestamp strings carry", "timestamp strings had no time zone and Utils.from_timstamp_string could not parse them"),
    ("K01", "encryption key pairs can encrypt", "RsaEncKeyPair could neither encrypt nor decrypt"),
    ("K03", "saving a key pair never", "a crash, full disk or I/O error while saving over a key file destroyed the only copy of the key; a saved key was lost by a power failure"),
    ("K04", "key pairs can be hashed", "hash() of a key pair raised TypeError"),
    ("K04", "key files and strings mixed up", "a key file or string whose private key part came from another key loaded as that other key"),
    ("E06", "Merkle trees with different roots", "Merkle trees of unhashed leaves that differ in leading zero bytes compared equal"),
    ("E06", "data references of different keys", "data references whose keys and data divide the same bytes differently compared equal"),
    ("K04", "a key file or string without a private key", "a key file or string whose private key part was replaced by a (damaged) public key loaded as a key pair with that public key"),
    ("C02", "file and directory checks take", "file and directory checks took a relative name with a doubled slash (.//x) as the absolute name (/x)"),
]
TECH = "deterministic simulation with fault injection: seeded search over schedules and fault sequences, "
HOW = {
    "T01": "checked against a dictionary after every operation",
    "T02": "histories with equal contents compared, roots against an independent specification",
    "T03": "threads on shared storage under a preemptive scheduler, each compared with its snapshot",
    "T04": "crash and restart on storage with loss, tearing and reordering of unsynced writes",
    "T05": "threads preempted at every line, storage and root compared before and after",
    "T06": "serialized bytes damaged in transit and at rest, reads compared with the authenticated contents",
    "T07": "nodes pruned, lost, fetched late between and inside operations, judged by a reference walk over the nodes that are there",
    "T08": "store accesses counted while accesses are slow and fail, against a bound from the branchings on the key's path",
    "P01": "provers and verifiers over a delaying, reordering network",
    "P02": "an adversary on the network forges inclusion proofs",
    "P03": "provers and verifiers over a delaying, reordering network",
    "P04": "an adversary on the network forges exclusion proofs",
    "P05": "proofs damaged, recombined and replayed past changes of the contents",
    "P06": "records encoded, delayed, damaged and decoded by other processes",
    "E01": "stored data lost, damaged, swapped and rolled back under the two stores",
    "E02": "failing storage and interrupts during every operation, against a dictionary",
    "E03": "crashes between the two stores, restart, rebuild",
    "E04": "the three forms driven by one history and compared",
    "E05": "objects of many kinds driven interleaved and compared with their own models",
    "E06": "objects with nearly equal histories under failures, restarts and clock jumps compared in every way, also concurrently, against models",
    "M01": "histories of additions, reads, crashes and copies against an independent tree",
    "M02": "an adversary on the network forges and recombines Merkle proofs",
    "K01": "key pairs exchange messages over a network that loses, damages and recombines them",
    "K02": "signatures and messages damaged and recombined in transit",
    "K03": "saves on a simulated disk with crashes, power loss, torn and failing writes",
    "K04": "saved keys damaged and mixed on a simulated disk, loads compared with the saved key",
    "K05": "restarted and forked processes with frozen clocks and failing random source, recorded history checked for repeats",
    "K06": "blobs damaged, mixed and torn at rest and in transit",
    "K07": "restricted key pairs saved, loaded, shared between threads and interrupted, every call outside the role must raise",
    "K08": "an eavesdropper reads every file state, message, blob, text form and error while saving and encrypting fail, are interrupted and race",
    "C01": "clock jumps, time zones and daylight saving changes under every operation, digests of runs compared",
    "C03": "settings of the process compared at every access another thread could run at, while storage, disk and random source fail and calls are interrupted",
    "C02": "names created, removed, replaced, made unreadable and lost on a simulated disk, working directory changes and failing calls around every question",
}
NA = {
    "N01": "pure functions of their arguments: no scheduling, clock, I/O, randomness, crash or other party can influence them, so simulated schedules and faults add nothing to ordinary input generation (their use inside tries is exercised by T01, T02 and T06)",
    "N02": "pure functions of their arguments with standard test vectors: nothing for a schedule, fault or crash to act on",
    "N04": "a pure predicate over one byte string: nothing for a schedule, fault or crash to act on",
}


def main():
    log = subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"], capture_output=True, text=True, check=True).stdout.splitlines()
    fixed = []
    for prop, key, what in FIXED:
        hits = [l.split()[0] for l in log if l.split(" ", 1)[1].startswith("fix: " + key)]
        assert len(hits) == 1, (key, hits)
        fixed.append("fixed: property=%s %s %s" % (prop, hits[0], what))
    assert len(fixed) == sum(1 for l in log if l.split(" ", 1)[1].startswith("fix:"))
    p = os.path.join(HERE, "known_findings.json")
    with open(p) as f:
        k = json.load(f)
    k["fixed"] = fixed
    with open(p, "w") as f:
        json.dump(k, f, indent=1)
        f.write("\n")
    with open(os.path.join(HERE, "properties.jsonl")) as f:
        ids = [json.loads(l)["id"] for l in f if l.strip()]
    assert sorted(ids) == sorted(list(HOW) + list(NA))
    checks = []
    for i in ids:
        if i in NA:
            continue
        checks.append({
            "property": i,
            "quick_cmd": "/opt/venv/bin/python -B run.py %s" % i,
            "thorough_cmd": "/opt/venv/bin/python -B run.py %s --tier thorough" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": TECH + HOW[i],
            "level": "exploration",
            "level_note": "Bounded random search: a pass means no explored seed violates the property. The code under test runs unchanged from "
                          "/repo; stubs, assumptions and fault counts are in the evidence file. A violation comes with a minimised replay file "
                          "that was reproduced in a fresh process.",
        })
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump({
            "version": 1, "setup_cmd": "true", "checks": checks,
            "not_applicable": [{"property": i, "reason": NA[i]} for i in ids if i in NA],
            "notes": "No hooks in /repo: every seam already exists (storage is passed in; clock, random source, files, locks and threads are "
                     "replaced through the standard library before pymt is imported).",
        }, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
