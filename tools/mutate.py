"""Systematic small mutations of pymt: which survive the repository's tests, and which of those the checks report.

usage: mutate.py list FILE | mutate.py tests OUT.jsonl [FILE...] | mutate.py checks OUT.jsonl SURVIVORS.jsonl [--frac F]
Run it with the project's interpreter (/opt/venv/bin/python). A development aid, run in scratch copies under /tmp/w/mut; nothing reads its results.
"""
import ast
import concurrent.futures
import copy
import json
import os
import re
import shutil
import subprocess
import sys

PY = "/opt/venv/bin/python"
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WORK = "/tmp/w/mut"
FILES = ["mpt.py", "empt.py", "mt.py", "merkletools.py", "proof.py", "keypairs.py", "base.py", "utils/node.py", "utils/nibble_path.py",
         "utils/utils.py", "utils/hash.py"]
MPT = ["T01", "T07", "T02", "P01", "P03", "P02", "P04", "T03", "T04", "T05", "T06", "P05", "E02", "E01", "E03", "E04", "E05", "C01", "T08"]
CHECKS = {
    "mpt.py": MPT,
    "empt.py": ["E02", "E01", "E04", "E03", "E05", "T06", "P01", "P03", "P02", "P04", "P05", "T02", "T04", "T05", "C01", "E06", "T08"],
    "mt.py": ["M01", "M02", "P06", "E05", "C01", "T05", "E06"],
    "merkletools.py": ["M01", "M02", "P06", "E05", "C01", "T05", "E06"],
    "proof.py": ["P06", "C01", "P01", "P02", "P03", "P04", "T05", "M01", "M02", "E05", "E06"],
    "keypairs.py": ["K01", "K02", "K03", "K04", "K07", "K08", "K05", "E05", "E06"],
    "base.py": ["E02", "E05", "K02", "T05"],
    "utils/node.py": MPT, "utils/nibble_path.py": MPT,
    "utils/utils.py": ["C02", "K06", "K05", "C01", "M01", "T01", "T02", "P06", "E02"],
    "utils/hash.py": ["T01", "T02", "M01", "E02"],
}
CMP = {ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.In: ast.NotIn,
       ast.NotIn: ast.In, ast.Is: ast.IsNot, ast.IsNot: ast.Is}


def mutants(src):
    """Yields (line, description, source)."""
    tree = ast.parse(src)
    nodes = list(ast.walk(tree))
    docs = {id(n.body[0].value) for n in nodes if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body
            and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant)}
    inraise = set()
    for n in nodes:
        if isinstance(n, ast.Raise):
            inraise |= {id(m) for m in ast.walk(n) if m is not n}
        if isinstance(n, ast.FunctionDef):
            for a in [n.returns] + [x.annotation for x in n.args.args]:
                if a is not None:
                    inraise |= {id(m) for m in ast.walk(a)}
    for i, n in enumerate(nodes):
        if id(n) in inraise or id(n) in docs:
            continue
        for what, change in edits(n):
            t = copy.deepcopy(tree)
            m = list(ast.walk(t))[i]
            if change(m) is False:
                continue
            try:
                out = ast.unparse(ast.fix_missing_locations(t))
                compile(out, "m", "exec")
            except (SyntaxError, ValueError, TypeError, AttributeError):
                continue
            yield getattr(n, "lineno", 0), what, out


def become(m, new):
    m.__class__ = new.__class__
    m.__dict__.clear()
    m.__dict__.update(new.__dict__)
    m.lineno = m.end_lineno = 1
    m.col_offset = m.end_col_offset = 0


def edits(n):
    u = lambda x: ast.unparse(x)[:50].replace("\n", " ")
    if isinstance(n, ast.Compare):
        for k, op in enumerate(n.ops):
            if type(op) in CMP:
                yield "cmp %s" % u(n), lambda m, k=k, op=op: m.ops.__setitem__(k, CMP[type(op)]())
            if type(op) in (ast.Lt, ast.LtE, ast.Gt, ast.GtE):
                yield "neg %s" % u(n), lambda m, k=k, op=op: m.ops.__setitem__(
                    k, {ast.Lt: ast.GtE, ast.LtE: ast.Gt, ast.Gt: ast.LtE, ast.GtE: ast.Lt}[type(op)]())
    elif isinstance(n, ast.BoolOp):
        yield "boolop %s" % u(n), lambda m: setattr(m, "op", ast.Or() if isinstance(m.op, ast.And) else ast.And())
        for k in range(len(n.values)):
            yield "drop %d of %s" % (k, u(n)), lambda m, k=k: (m.values.pop(k), become(m, m.values[0]) if len(m.values) == 1 else 0)
    elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
        yield "unnot %s" % u(n), lambda m: become(m, m.operand)
    elif isinstance(n, (ast.If, ast.While, ast.IfExp)):
        if isinstance(n, ast.If) or isinstance(n, ast.IfExp):
            yield "true %s" % u(n.test), lambda m: setattr(m, "test", ast.Constant(True))
        yield "false %s" % u(n.test), lambda m: setattr(m, "test", ast.Constant(False))
    elif isinstance(n, ast.Constant):
        v = n.value
        if isinstance(v, bool):
            yield "bool %r" % v, lambda m: setattr(m, "value", not v)
        elif isinstance(v, int):
            yield "int %r+1" % v, lambda m: setattr(m, "value", v + 1)
            if v > 0:
                yield "int %r-1" % v, lambda m: setattr(m, "value", v - 1)
        elif isinstance(v, (str, bytes)) and len(v) < 30:
            yield "const %r" % v, lambda m: setattr(m, "value", v + (v[:1] or (b"x" if isinstance(v, bytes) else "x")))
    elif isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Add, ast.Sub, ast.Mult, ast.FloorDiv)):
        new = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Add, ast.FloorDiv: ast.Mult}[type(n.op)]
        yield "op %s" % u(n), lambda m: setattr(m, "op", new())
        if isinstance(n.op, ast.Add):
            yield "left %s" % u(n), lambda m: become(m, m.left)
            yield "right %s" % u(n), lambda m: become(m, m.right)
            yield "flip %s" % u(n), lambda m: m.__dict__.update(left=m.right, right=m.left)
    elif isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice) and isinstance(n.ctx, ast.Load):
        yield "slice %s" % u(n), lambda m: become(m, m.value)
    elif isinstance(n, ast.Return) and n.value is not None and not isinstance(n.value, ast.Constant):
        yield "return %s" % u(n), lambda m: setattr(m, "value", ast.Constant(None))
        yield "return-true %s" % u(n), lambda m: setattr(m, "value", ast.Constant(True))
    elif isinstance(n, ast.Call) and len(n.args) == 2:
        yield "swap %s" % u(n), lambda m: m.args.reverse()
    if isinstance(n, ast.Call) and n.keywords:
        for k in range(len(n.keywords)):
            yield "nokw %d %s" % (k, u(n)), lambda m, k=k: m.keywords.pop(k) and None
    if isinstance(n, (ast.Call,)) and len(n.args) == 1 and isinstance(n.func, ast.Name) and n.func.id in (
            "bytes", "list", "dict", "sorted", "reversed", "deepcopy", "tuple", "set", "bytearray", "copy"):
        yield "uncall %s" % u(n), lambda m: become(m, m.args[0])
    if isinstance(n, (ast.Expr, ast.Assign, ast.AugAssign, ast.Raise, ast.Delete, ast.Continue, ast.Break)) and not (
            isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)):
        yield "del %s" % u(n), lambda m: become(m, ast.Pass())


def sh(cmd, cwd, timeout, env=None):
    try:
        r = subprocess.run(cmd, cwd=cwd, capture_output=True, text=True, timeout=timeout, env=dict(os.environ, **(env or {})))
        return r.returncode, r.stdout + r.stderr
    except subprocess.TimeoutExpired as e:
        return 124, "timeout"


def copy_repo(tag):
    d = os.path.join(WORK, "c-%s-%d" % (tag, os.getpid()))
    if not os.path.exists(d):
        shutil.copytree("/repo", d, symlinks=True, ignore=shutil.ignore_patterns(".git", "__pycache__", "docs"))
    return d


def test_one(job):
    f, k, line, what, src = job
    d = copy_repo("t")
    p = os.path.join(d, "src/pymt", f)
    with open("/repo/src/pymt/" + f, newline="") as g:
        orig = g.read()
    with open(p, "w") as g:
        g.write(src)
    try:
        c, o = sh(["nice", PY, "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "--timeout=60"] + (
            [] if f in ("keypairs.py", "utils/utils.py", "base.py") else ["--ignore=src/pymt/tests/test_keypairs.py"]), d, 200,
                  {"PYTHONPATH": d + "/src", "PYTHONHASHSEED": "0", "PYTHONDONTWRITEBYTECODE": "1"})
    finally:
        with open(p, "w", newline="") as g:
            g.write(orig)
    return {"file": f, "k": k, "line": line, "what": what, "tests": c}


def check_one(job):
    f, k, line, what, src, frac = job
    d = os.path.join(WORK, "k-%s-%d" % (f.replace("/", "_"), k))
    shutil.copytree("/repo/src", d + "/src", ignore=shutil.ignore_patterns("__pycache__"))
    with open(os.path.join(d, "src/pymt", f), "w") as g:
        g.write(src)
    sys.path.insert(0, VERIF)
    import importlib

    out = {"file": f, "k": k, "line": line, "what": what, "by": None, "msg": ""}
    try:
        for p in CHECKS[f]:
            runs = importlib.import_module("sim.checks." + p.lower()).RUNS["quick"]
            c, o = sh(["nice", PY, "-W", "ignore", "-B", "run.py", p, "--no-evidence", "--no-shrink", "--workers", "1", "--runs",
                       str(max(30, int(runs * frac)))], VERIF, 900, {"PYMT_SRC": d + "/src", "VERIF_SEED": "1"})
            if c != 0:
                m = re.search(r"run \d+ (?:violates: )?.*", o)
                out.update(by=p, rc=c, msg=(m.group(0) if m else o[-200:])[:200])
                break
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return out


def all_mutants(files):
    for f in files:
        with open("/repo/src/pymt/" + f) as g:
            src = g.read()
        for k, (line, what, out) in enumerate(mutants(src)):
            yield f, k, line, what, out


def main():
    os.makedirs(WORK, exist_ok=True)
    if sys.argv[1] == "list":
        n = 0
        for f, k, line, what, _ in all_mutants(sys.argv[2:] or FILES):
            print(f, k, line, what)
    elif sys.argv[1] == "tests":
        jobs = list(all_mutants(sys.argv[3:] or FILES))
        with concurrent.futures.ProcessPoolExecutor(6) as ex, open(sys.argv[2], "w") as g:
            for r in ex.map(test_one, jobs, chunksize=4):
                g.write(json.dumps(r) + "\n")
                g.flush()
        for x in os.listdir(WORK):
            if x.startswith("c-t-"):
                shutil.rmtree(os.path.join(WORK, x))
    else:
        frac = float(sys.argv[sys.argv.index("--frac") + 1]) if "--frac" in sys.argv else 0.25
        want = set()
        with open(sys.argv[3]) as g:
            for l in g:
                r = json.loads(l)
                if r.get("tests") == 0 or ("by" in r and r["by"] is None):
                    want.add((r["file"], r["k"]))
        jobs = [j + (frac,) for j in all_mutants(FILES) if (j[0], j[1]) in want]
        with concurrent.futures.ProcessPoolExecutor(int(os.environ.get("JOBS", "8"))) as ex, open(sys.argv[2], "w") as g:
            for r in (x.result() for x in concurrent.futures.as_completed([ex.submit(check_one, j) for j in jobs])):
                g.write(json.dumps(r) + "\n")
                g.flush()


if __name__ == "__main__":
    main()
