"""Every run is a pure function of its seed: the same digests whatever the number of workers and the hash seed.

usage: selftest.py [--runs N] [PROP...]
"""
import json
import os
import subprocess
import sys
import tempfile

PY = "/opt/venv/bin/python"
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def digests(prop, runs, seed, workers, hashseed):
    with tempfile.NamedTemporaryFile("r") as f:
        r = subprocess.run([PY, "-W", "ignore", "-B", "run.py", prop, "--no-evidence", "--digests", f.name, "--runs", str(runs), "--workers",
                            str(workers)], cwd=VERIF, capture_output=True, text=True, env=dict(os.environ, VERIF_SEED=str(seed), PYTHONHASHSEED=hashseed))
        lines = f.read().splitlines()
    assert len(lines) == runs, (prop, len(lines), r.stdout[-300:], r.stderr[-300:])
    return dict(l.split() for l in lines)


def main():
    args = sys.argv[1:]
    runs = int(args.pop(args.index("--runs") + 1)) if "--runs" in args else 150
    args = [a for a in args if a != "--runs"]
    with open(os.path.join(VERIF, "MANIFEST.json")) as f:
        props = args or [c["property"] for c in json.load(f)["checks"]]
    bad = 0
    for p in props:
        a = digests(p, runs, 5, 6, "1")
        b = digests(p, runs, 5, 2, "4711")
        diff = sorted(k for k in a if a[k] != b.get(k))
        bad += bool(diff)
        print("%s %d runs %s" % (p, len(a), "identical" if not diff else "DIFFERENT: %s" % diff[:5]), flush=True)
    return 1 if bad else 0


if __name__ == "__main__":
    sys.exit(main())
