"""Plants bugs in scratch copies: tries, confirms and keeps each as /verif/seeded/<id>.

usage: plant.py SPECS.py [ID...]   (SPECS.py defines BUGS = [dict(id=, property=, edits=[(file, old, new)], demo=, needs=, breaks=)])
"""
import concurrent.futures
import json
import os
import re
import shutil
import subprocess
import sys

PY = "/opt/venv/bin/python"
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WORK = "/tmp/w/plant"
DEMO = '#!/bin/bash\nPYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD/src" exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n'


def sh(cmd, cwd, timeout=600, env=None):
    try:
        r = subprocess.run(cmd, cwd=cwd, capture_output=True, text=True, timeout=timeout, env=dict(os.environ, **(env or {})))
        return r.returncode, r.stdout + r.stderr
    except subprocess.TimeoutExpired as e:
        return 124, "timeout %s" % (e.stdout or "")


def edit(path, old, new, count=1):
    with open(path, newline="") as f:
        s = f.read()
    if "\r\n" in s:
        old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
    assert s.count(old) == count, (path, s.count(old), old)
    with open(path, "w", newline="") as f:
        f.write(s.replace(old, new))


def stable():
    with open("/opt/vp/BASELINE.json") as f:
        return set(json.load(f)["stable"])


def added_lines():
    """(file, line) of every line of src/pymt that is not in the original repository."""
    base = subprocess.run(["git", "rev-list", "--max-parents=0", "HEAD"], cwd="/repo", capture_output=True, text=True).stdout.split()[0]
    out = set()
    for f in subprocess.run(["git", "ls-files", "src/pymt"], cwd="/repo", capture_output=True, text=True).stdout.split():
        if f.endswith(".py") and "/tests/" not in f:
            t = subprocess.run(["git", "blame", "-s", base + "..HEAD", "--", f], cwd="/repo", capture_output=True, text=True).stdout
            for n, line in enumerate(t.splitlines(), 1):
                if not line.startswith("^"):
                    out.add((f, n))
    return out


def removed_lines(patch):
    out, f, n = [], None, 0
    for line in patch.splitlines():
        if line.startswith("--- "):
            f = line[6:].strip()
        elif line.startswith("@@"):
            n = int(line.split()[1][1:].split(",")[0])
        elif line.startswith("-"):
            out.append((f, n))
            n += 1
        elif not line.startswith(("+", "\\")):
            n += 1
    return out


def one(b):
    d = os.path.join(WORK, b["id"])
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree("/repo", d, symlinks=True)
    try:
        for e in b["edits"]:
            edit(os.path.join(d, "src/pymt", e[0]), *e[1:])
        patch = subprocess.run(["git", "diff", "--no-color"], cwd=d, capture_output=True, check=True).stdout
        out = os.path.join(VERIF, "seeded", b["id"])
        os.makedirs(out, exist_ok=True)
        with open(os.path.join(out, "demo.sh"), "w") as f:
            f.write(DEMO)
        with open(os.path.join(out, "demo.py"), "w") as f:
            f.write(b["demo"].lstrip("\n"))
        env = {"PYTHONPATH": d + "/src", "PYTHONHASHSEED": "0", "PYTHONDONTWRITEBYTECODE": "1"}
        xml = os.path.join(d, "r.xml")
        sh([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "--timeout=300", "--continue-on-collection-errors", "--junitxml", xml], d, env=env)
        import xml.etree.ElementTree as ET

        ok = set()
        for t in ET.parse(xml).iter("testcase"):
            if not any(c.tag in ("failure", "error", "skipped") for c in t):
                ok.add("%s::%s" % (t.get("classname"), t.get("name")))
        missing = stable() - ok
        shutil.rmtree(os.path.join(d, ".git"))
        c0, o0 = sh(["bash", os.path.join(out, "demo.sh")], "/repo")
        c1, o1 = sh(["bash", os.path.join(out, "demo.sh")], d)
        mine = added_lines()
        gone = removed_lines(patch.decode())
        good = not missing and c0 == 0 and c1 not in (0, 124) and any(g not in mine for g in gone)
        notes = [] if any(g not in mine for g in gone) else ["changes no line of the original"]
        if missing:
            notes.append("%d tests fail: %s" % (len(missing), sorted(missing)[:3]))
        if c0:
            notes.append("demo fails unchanged: " + o0[-300:])
        if c1 in (0, 124):
            notes.append("demo passes with the bug (%d): %s" % (c1, o1[-300:]))
        with open(os.path.join(out, "patch.diff"), "wb") as f:
            f.write(patch)
        with open(os.path.join(out, "meta.json"), "w") as f:
            json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, f, indent=1)
            f.write("\n")
        if not good:
            shutil.rmtree(out)
            if missing or c0 or c1 in (0, 124):
                return b, False, "; ".join(notes), None, ""
        c, o = sh([PY, "-W", "ignore", "-B", "run.py", b["property"], "--no-evidence", "--workers", "3"], VERIF, 900, {"PYMT_SRC": d + "/src", "VERIF_SEED": "1"})
        m = re.search(r"run \d+ (?:violates: )?.*", o)
        return b, True, "; ".join(notes), c, (m.group(0)[:230] if m else o[-300:])
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    ns = {}
    with open(sys.argv[1]) as f:
        exec(f.read(), ns)
    todo = [b for b in ns["BUGS"] if len(sys.argv) == 2 or b["id"] in sys.argv[2:]]
    with concurrent.futures.ThreadPoolExecutor(4) as ex:
        for b, good, note, c, o in ex.map(one, todo):
            if not good:
                print("BAD    %-34s %s" % (b["id"], note), flush=True)
            else:
                print("%-6s %-34s %s %s" % ("CAUGHT" if c == 1 else "MISSED" if c == 0 else "ERR%s" % c, b["id"], b["property"], ("[not kept] " if note else "") + o), flush=True)


if __name__ == "__main__":
    main()
