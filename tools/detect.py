"""Which check catches which planted bug: applies every seeded change to a scratch copy and runs the check of its property.

usage: detect.py OUT.jsonl [--all] [--jobs N] [ID...]   (--all: every check, not only that of the bug's own property)
A line per (bug, check): {"bug":, "check":, "caught":, "run":, "clause":, "s":}
"""
import concurrent.futures
import json
import os
import re
import shutil
import subprocess
import sys
import time

PY = "/opt/venv/bin/python"
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WORK = "/tmp/w/detect"


def one(bug, checks, workers):
    d = os.path.join(WORK, bug)
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree("/repo", d, symlinks=True)
    out = []
    try:
        subprocess.run(["git", "apply", os.path.join(VERIF, "seeded", bug, "patch.diff")], cwd=d, check=True)
        for c in checks:
            t = time.time()
            env = dict(os.environ, PYMT_SRC=os.path.join(d, "src"), VERIF_TIER="quick")
            env.setdefault("VERIF_SEED", "1")
            r = subprocess.run([PY, "-W", "ignore", "-B", "run.py", c, "--no-evidence", "--no-shrink", "--workers", str(workers)], cwd=VERIF, capture_output=True, text=True, env=env)
            m = re.search(r"VIOLATION property=%s" % c, r.stdout)
            lines = [x for x in (r.stdout + r.stderr).splitlines() if "VIOLATION" in x or "violat" in x.lower()]
            out.append({"bug": bug, "check": c, "caught": bool(m) and r.returncode == 1, "rc": r.returncode, "s": round(time.time() - t, 1), "line": lines[:2]})
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return out


def main():
    args = sys.argv[1:]
    every = "--all" in args
    jobs = int(args[args.index("--jobs") + 1]) if "--jobs" in args else 4
    if "--jobs" in args:
        del args[args.index("--jobs"):args.index("--jobs") + 2]
    args = [a for a in args if a != "--all"]
    path, ids = args[0], args[1:] or sorted(os.listdir(os.path.join(VERIF, "seeded")))
    names = sorted(f[:-3].upper() for f in os.listdir(os.path.join(VERIF, "sim", "checks")) if re.match(r"[a-z]\d\d\.py$", f))
    have = set()
    if os.path.exists(path):
        have = {(r["bug"], r["check"]) for r in map(json.loads, open(path))}
    os.makedirs(WORK, exist_ok=True)
    work = []
    for b in ids:
        with open(os.path.join(VERIF, "seeded", b, "meta.json")) as f:
            p = json.load(f)["property"]
        todo = [c for c in ([p] + [n for n in names if n != p] if every else [p]) if (b, c) not in have]
        if todo:
            work.append((b, todo))
    with concurrent.futures.ThreadPoolExecutor(jobs) as ex, open(path, "a") as f:
        for rs in ex.map(lambda w: one(w[0], w[1], max(1, 8 // jobs)), work):
            for r in rs:
                f.write(json.dumps(r) + "\n")
                f.flush()
                if r["check"] == r["bug"][:3].upper() or not every:
                    print(r["bug"], r["check"], "caught" if r["caught"] else "MISSED", r["s"], flush=True)


if __name__ == "__main__":
    main()
