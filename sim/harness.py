"""Runs batches of seeded simulations, minimises and replays failures, writes the evidence."""
import argparse
import copy
import faulthandler
import hashlib
import importlib
import json
import multiprocessing
import os
import pickle
import random
import resource
import select
import signal
import subprocess
import sys
import traceback
from collections import Counter

from . import seams

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.path.join(VERIF, "out")
EVID = os.path.join(VERIF, "evidence")
KNOWN = os.path.join(VERIF, "known_findings.json")
RUN_LIMIT_S = 60  # wall clock after which a run counts as stuck and is re-examined alone


def known_ids(prop):
    try:
        with open(KNOWN) as f:
            return {e["id"]: e for e in json.load(f)["findings"] if e["property"] == prop}
    except FileNotFoundError:
        return {}


def load(prop):
    return importlib.import_module("sim.checks.%s" % prop.lower())


# ---------------------------------------------------------------- one run
def make_plan(mod, prop, seed, i, tier):
    rng = random.Random("%s:%s:%d" % (seed, prop, i))
    plan = mod.plan(rng, i, tier)
    plan.setdefault("seed", "%s:%s:%d" % (seed, prop, i))
    plan["prop"] = prop
    return plan


def _in_pymt(tb):
    pkg = seams.PKG + os.sep
    while tb is not None:
        if tb.tb_frame.f_code.co_filename.startswith(pkg):
            return True
        tb = tb.tb_next
    return False


def execute(mod, plan, keep=False):
    """Pure function of plan and code under test.  Returns a result dict."""
    from . import kernel

    plan = json.loads(json.dumps(plan))
    viol = None
    sim = None
    try:
        sim = kernel.Sim(plan, keep)
        mod.run(sim, plan)
    except kernel.Violation as v:
        viol = (v.tag, v.msg)
    except kernel.HarnessError:
        raise
    except (Exception, kernel.SimCrash, KeyboardInterrupt) as e:
        if sim is None or not _in_pymt(e.__traceback__):
            raise
        last = traceback.extract_tb(e.__traceback__)
        fr = [f for f in last if f.filename.startswith(seams.PKG)][-1]
        viol = (
            "exception",
            "%s: %s escapes from %s" % (type(e).__name__, str(e)[:200], fr.name),
        )
        sim.log("VIOLATION", viol[0], viol[1])
    return {
        "viol": viol,
        "digest": sim.digest(),
        "sig": sim.sig.hexdigest(),
        "nev": sim.nev,
        "faults": dict(sim.faults),
        "probes": dict(sim.probes),
        "ops": dict(sim.ops),
        "findings": sim.findings,
        "elapsed": seams.CLOCK.elapsed,
        "switches": sim.switches,
        "yields": sim.yields,
        "decisions": sim.decisions,
        "trace": sim.trace if keep else None,
    }


def isolated(mod, plan, keep=False, limit=RUN_LIMIT_S):
    """Execute in a child forked from this process, which itself never executes a run."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            os.setpgid(0, 0)
            sys.stdout.flush()
            with os.fdopen(w, "wb") as f:
                try:
                    with alarm(limit):
                        out = execute(mod, plan, keep)
                except BaseException:
                    out = traceback.format_exc()
                pickle.dump(out, f)
        finally:
            os._exit(0)
    os.close(w)
    data = b""
    t0 = seams.real.monotonic()
    with os.fdopen(r, "rb") as f:
        while True:
            if select.select([f], [], [], 1)[0]:
                piece = os.read(f.fileno(), 1 << 20)
                if not piece:
                    break
                data += piece
            elif seams.real.monotonic() - t0 > limit + 10:
                break
    try:
        os.killpg(pid, 9)
    except (ProcessLookupError, PermissionError):
        try:
            os.kill(pid, 9)
        except ProcessLookupError:
            pass
    os.waitpid(pid, 0)
    out = pickle.loads(data) if data else "the run was killed"
    if isinstance(out, str):
        raise RuntimeError(out)
    return out


def fix_sched(plan, res):
    """Replace a seeded schedule by the decisions it took."""
    if plan.get("sched", {}).get("mode") == "seed":
        plan = copy.deepcopy(plan)
        plan["sched"] = {
            "mode": "list", "lines": plan["sched"].get("lines", False), "d": res["decisions"],
        }
    return plan


# ---------------------------------------------------------------- minimisation
class Shrinker:
    def __init__(self, mod, plan, tag, budget_s=60):
        self.mod, self.tag = mod, tag
        self.plan = plan
        self.tries = 0
        self.end = seams.real.monotonic() + budget_s

    def fails(self, plan):
        if seams.real.monotonic() > self.end:
            return False
        self.tries += 1
        try:
            r = isolated(self.mod, plan, limit=20)
        except RuntimeError:
            return False
        return r["viol"] is not None and r["viol"][0] == self.tag

    def _ddmin(self, get, put):
        items = get(self.plan)
        n = 2
        while items:
            size = -(-len(items) // n)
            hit = False
            for i in range(0, len(items), size):
                cand = items[:i] + items[i + size :]
                p = put(copy.deepcopy(self.plan), cand)
                if self.fails(p):
                    self.plan, items, hit = p, cand, True
                    break
            if hit:
                n = max(n - 1, 2)
            elif size == 1:
                break
            else:
                n = min(n * 2, len(items))

    def run(self):
        for _ in range(3):
            before = json.dumps(self.plan, sort_keys=True)
            if "sched" in self.plan and self.plan["sched"].get("d"):
                self._ddmin(lambda p: p["sched"]["d"], lambda p, v: (p["sched"].__setitem__("d", v), p)[1])
            if "steps" in self.plan:
                self._ddmin(lambda p: p["steps"], lambda p, v: (p.__setitem__("steps", v), p)[1])
            for t in range(len(self.plan.get("tasks", []))):
                self._ddmin(
                    lambda p: p["tasks"][t], lambda p, v: (p["tasks"].__setitem__(t, v), p)[1]
                )
            self._faults()
            if json.dumps(self.plan, sort_keys=True) == before:
                break
        self._values()
        return self.plan

    def _steps(self, p):
        for s in p.get("steps", []):
            yield s
        for t in p.get("tasks", []):
            for s in t:
                yield s

    def _faults(self):
        n = len(list(self._steps(self.plan)))
        for i in range(n):
            p = copy.deepcopy(self.plan)
            s = list(self._steps(p))[i]
            if isinstance(s, dict) and s.get("f"):
                s.pop("f")
                if self.fails(p):
                    self.plan = p

    def _values(self):
        """Simpler values and keys, and no clock or zone oddities."""
        for key, v in (("tick", 0.0), ("tz", "UTC0")):
            if self.plan.get(key) not in (None, v):
                p = copy.deepcopy(self.plan)
                p[key] = v
                if self.fails(p):
                    self.plan = p
        for tab in ("vals",):
            for i in range(len(self.plan.get(tab, []))):
                cur = self.plan[tab][i]
                for cand in ("61" * 1, cur[: 2 * 40]):
                    if len(cand) < len(cur):
                        p = copy.deepcopy(self.plan)
                        p[tab][i] = cand
                        if self.fails(p):
                            self.plan = p
                            break


class WallLimit(BaseException):
    pass


class alarm:
    def __init__(self, s):
        self.s = s

    def __enter__(self):
        def h(*a):
            raise WallLimit("wall clock limit of the harness")

        self.old = signal.signal(signal.SIGALRM, h)
        signal.setitimer(signal.ITIMER_REAL, self.s, 5)

    def __exit__(self, *a):
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, self.old)


# ---------------------------------------------------------------- batches
def _limit():
    try:
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    except (ValueError, OSError):
        pass


def worker(prop, seed, tier, w, nw, count, conn, stop):
    """Runs one seed of every block of nw; reports a summary, the first violation, or a harness error."""
    try:
        _limit()
        seams.install()
        mod = load(prop)
        agg = new_agg()
        for b in range(-(-count // nw)):
            i = b * nw + (w + b) % nw  # rotating, so that periodic plans spread over the workers
            if i >= count:
                continue
            if stop.is_set():
                break
            conn.send(("start", i))
            plan = make_plan(mod, prop, seed, i, tier)
            try:
                with alarm(RUN_LIMIT_S):
                    res = execute(mod, plan)
            except WallLimit:
                conn.send(("stuck", i))
                break
            add(agg, res, plan, i)
            if res["viol"] is not None:
                conn.send(("viol", i, plan, res))
                break
        conn.send(("done", agg))
    except BaseException:
        conn.send(("error", traceback.format_exc()))
    finally:
        conn.close()


def new_agg():
    return {
        "runs": 0, "faults": Counter(), "probes": Counter(), "ops": Counter(), "sigs": set(),
        "elapsed": 0.0, "switches": 0, "yields": 0, "events": 0, "nontrivial": set(),
        "findings": {}, "digests": {}, "samples": [], "faulted": 0,
    }


def add(agg, res, plan, i):
    agg["runs"] += 1
    for k in ("faults", "probes", "ops"):
        agg[k].update(res[k])
    agg["elapsed"] += res["elapsed"]
    agg["switches"] += res["switches"]
    agg["yields"] += res["yields"]
    agg["events"] += res["nev"]
    agg["digests"][i] = res["digest"]
    agg["sigs"].add(res["sig"])
    if res["faults"] or res["switches"] > 1 or res["ops"].get("deliver"):
        agg["nontrivial"].add(res["digest"])
    if res["faults"]:
        agg["faulted"] += 1
    for fid, msg in res["findings"]:
        agg["findings"].setdefault(fid, [0, msg, i])[0] += 1
    if len(agg["samples"]) < 1:
        agg["samples"].append(sample(plan, res, i))


def sample(plan, res, i):
    steps = plan.get("steps") or [s for t in plan.get("tasks", []) for s in t]
    return {
        "run": i, "seed": plan["seed"], "cfg": plan.get("cfg"), "n_steps": len(steps),
        "first_steps": json.loads(json.dumps(steps[:8])), "faults_fired": res["faults"],
        "events": res["nev"], "thread_switches": res["switches"], "digest": res["digest"],
    }


def merge(a, b):
    a["runs"] += b["runs"]
    for k in ("faults", "probes", "ops"):
        a[k].update(b[k])
    for k in ("sigs", "nontrivial"):
        a[k] |= b[k]
    for k in ("elapsed", "switches", "yields", "events", "faulted"):
        a[k] += b[k]
    a["digests"].update(b["digests"])
    for f, (n, m, i) in b["findings"].items():
        if f in a["findings"]:
            a["findings"][f][0] += n
        else:
            a["findings"][f] = [n, m, i]
    if len(a["samples"]) < 3:
        a["samples"] += b["samples"][: 3 - len(a["samples"])]


def wait_exit(p, limit=10):
    t0 = seams.real.monotonic()
    while p.exitcode is None and seams.real.monotonic() - t0 < limit:
        seams.real.sleep(0.01)
    return p.exitcode is not None


def batch(prop, seed, tier, count, nw):
    """Returns (agg, violation or None, errors, stuck list)."""
    ctx = multiprocessing.get_context("fork")
    stop = ctx.Event()
    procs = []
    for w in range(nw):
        a, b = ctx.Pipe(False)
        p = ctx.Process(target=worker, args=(prop, seed, tier, w, nw, count, b, stop))
        p.start()
        b.close()
        procs.append([p, a, None, None])  # process, pipe, current run, started at
    agg = new_agg()
    viols, errors, stuck = [], [], []
    mono = seams.real.monotonic
    live = list(procs)
    while live:
        ready = select.select([x[1] for x in live], [], [], 5)[0]
        for x in list(live):
            if x[1] in ready:
                try:
                    msg = x[1].recv()
                except EOFError:
                    wait_exit(x[0])
                    if x[2] is not None:
                        errors.append("worker died in run %s (exit %s)" % (x[2], x[0].exitcode))
                    live.remove(x)
                    continue
                if msg[0] == "start":
                    x[2], x[3] = msg[1], mono()
                elif msg[0] == "viol":
                    viols.append(msg[1:])
                    stop.set()
                elif msg[0] == "stuck":
                    stuck.append(msg[1])
                    stop.set()
                elif msg[0] == "done":
                    merge(agg, msg[1])
                    live.remove(x)
                elif msg[0] == "error":
                    errors.append(msg[1])
                    live.remove(x)
                    stop.set()
            elif x[3] is not None and mono() - x[3] > RUN_LIMIT_S + 30:
                stuck.append(x[2])
                x[0].kill()
                live.remove(x)
                stop.set()
    for x in procs:
        if not wait_exit(x[0]):
            x[0].kill()
    viols.sort(key=lambda v: v[0])
    return agg, (viols[0] if viols else None), errors, stuck


# ---------------------------------------------------------------- replay
def replay_file(path, quiet=False):
    """Re-execute a replay file; 0 if the same violation and digest come out."""
    with open(path) as f:
        rep = json.load(f)
    seams.install()
    mod = load(rep["property"])
    plan = rep["plan"]
    if rep["violation"]["tag"] == "does-not-terminate":
        pid = os.fork()
        if pid == 0:
            try:
                os.setpgid(0, 0)
                execute(mod, plan)
            finally:
                os._exit(0)
        t0 = seams.real.monotonic()
        while seams.real.monotonic() - t0 < RUN_LIMIT_S:
            if os.waitpid(pid, os.WNOHANG)[0]:
                print("REPLAY different: the run terminated")
                return 3
            seams.real.sleep(0.2)
        os.killpg(pid, 9)
        os.waitpid(pid, 0)
        print("REPLAY reproduced: does not terminate")
        return 0
    res = execute(mod, plan, keep=True)
    if not quiet:
        for line in res["trace"]:
            print(line)
    if res["viol"] is None:
        print("REPLAY different: no violation")
        return 3
    same = res["viol"][0] == rep["violation"]["tag"] and res["digest"] == rep["digest"]
    print("REPLAY %s: %s: %s (digest %s)" % (
        "reproduced" if same else "different", res["viol"][0], res["viol"][1], res["digest"]))
    return 0 if same else 3


def write_replay(prop, seed, i, plan, res, extra):
    d = os.path.join(OUT, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-seed%s-run%s.json" % (prop, seed, i))
    with open(path, "w") as f:
        json.dump(
            {
                "property": prop, "verif_seed": seed, "run": i,
                "violation": {"tag": res["viol"][0], "message": res["viol"][1]},
                "digest": res["digest"], "plan": plan, "trace": res.get("trace"), **extra,
            },
            f, indent=1,
        )
    return path


def fresh_replay(path):
    """Replay in a fresh interpreter with another hash seed."""
    env = dict(os.environ, PYTHONHASHSEED="77")
    r = subprocess.run(
        [sys.executable, "-B", os.path.join(VERIF, "run.py"), "--replay", path, "--quiet"],
        capture_output=True, text=True, env=env, timeout=RUN_LIMIT_S + 60,
    )
    return r.returncode, (r.stdout + r.stderr).strip()[-2000:]


# ---------------------------------------------------------------- entry
def main(argv):
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--runs", type=int)
    ap.add_argument("--workers", type=int, default=int(os.environ.get("VERIF_WORKERS", "8")))
    ap.add_argument("--replay")
    ap.add_argument("--one", type=int, help="execute one run and print its trace")
    ap.add_argument("--quiet", action="store_true")
    ap.add_argument("--digests", help="write the event-log digest of every run to this file")
    ap.add_argument("--no-evidence", action="store_true")
    ap.add_argument("--no-shrink", action="store_true")
    a = ap.parse_args(argv)
    faulthandler.enable()
    if a.replay:
        return replay_file(a.replay, a.quiet)
    prop = a.prop.upper()
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    if not os.path.isfile(os.path.join(seams.PKG, "__init__.py")):
        print("no code under test at %s" % seams.PKG)
        return 2
    if a.one is not None:
        seams.install()
        mod = load(prop)
        plan = make_plan(mod, prop, a.seed, a.one, tier)
        res = execute(mod, plan, keep=True)
        print("\n".join(res["trace"]))
        res.pop("trace")
        res.pop("decisions")
        print(json.dumps(res, indent=1, default=str))
        return 0
    mono = seams.real.monotonic
    t0 = mono()
    src = os.path.join(VERIF, "sim", "checks", prop.lower() + ".py")
    with open(src) as f:
        if not f.read():
            return 2
    mod = load_meta(prop)
    count = a.runs or mod.RUNS[tier]
    agg, viol, errors, stuck = batch(prop, a.seed, tier, count, a.workers)
    wall = mono() - t0
    rc = 0
    nviol = 0
    if viol is not None:
        rc, nviol = report(prop, a.seed, viol, a.no_shrink)
    elif stuck:
        rc, nviol = report_stuck(prop, a.seed, tier, min(stuck))
    if errors and rc == 0:
        print("HARNESS ERROR\n" + errors[0], file=sys.stderr)
        rc = 2
    known = known_ids(prop)
    for fid, (n, msg, i) in sorted(agg["findings"].items()):
        if fid in known:
            print("KNOWN-FINDING: property=%s %s (%d times; e.g. run %d: %s)" % (
                prop, known[fid]["what"], n, i, msg))
        elif rc == 0:
            plan = make_plan_fresh(prop, a.seed, i, tier)
            path = write_replay(prop, a.seed, i, plan, {
                "viol": (fid, msg), "digest": agg["digests"][i]}, {"note": "finding not listed"})
            print("VIOLATION property=%s replay=%s" % (prop, path))
            rc, nviol = 1, nviol + 1
    if a.digests:
        with open(a.digests, "w") as f:
            for i in sorted(agg["digests"]):
                f.write("%d %s\n" % (i, agg["digests"][i]))
    if not a.no_evidence and rc in (0, 1):
        evidence(prop, tier, a.seed, mod, agg, wall, nviol)
    print("%s %s: %d runs, %d events, %.1f simulated hours, faults %d, %d distinct event logs, %.1fs -> exit %d" % (
        prop, tier, agg["runs"], agg["events"], agg["elapsed"] / 3600, sum(agg["faults"].values()),
        len(set(agg["digests"].values())), wall, rc))
    return rc


def load_meta(prop):
    """Constants of a check, without importing the code under test in this process."""
    seams_installed = "Crypto" in sys.modules
    if not seams_installed:
        seams.install()
    return load(prop)


def make_plan_fresh(prop, seed, i, tier):
    return make_plan(load_meta(prop), prop, seed, i, tier)


def persist(mod, plan, keep=False):
    """Executes a plan until it violates: once, unless the code under test is not deterministic."""
    for _ in range(8):
        res = isolated(mod, plan, keep=keep)
        if res["viol"] is not None:
            break
    return res


def report(prop, seed, viol, no_shrink):
    i, plan, res = viol
    mod = load_meta(prop)
    tag = res["viol"][0]
    print("run %d violates: %s: %s" % (i, tag, res["viol"][1]))
    orig_n = len(plan.get("steps", [])) + sum(len(t) for t in plan.get("tasks", []))
    plan = fix_sched(plan, res)
    tries = 0
    note = ""
    again = persist(mod, plan)
    if again["viol"] is None or again["viol"][0] != tag:
        note = "recorded schedule did not reproduce in the parent; unminimised plan kept"
        plan = make_plan_fresh(prop, seed, i, os.environ.get("VERIF_TIER", "quick"))
    elif not no_shrink:
        sh = Shrinker(mod, plan, tag)
        small = sh.run()
        tries = sh.tries
        if persist(mod, small)["viol"] is not None:
            plan = small
    final = persist(mod, plan, keep=True)
    if final["viol"] is None:
        print("HARNESS ERROR: violation of run %d not reproducible: %s" % (i, note), file=sys.stderr)
        return 2, 0
    n = len(plan.get("steps", [])) + sum(len(t) for t in plan.get("tasks", []))
    path = write_replay(prop, seed, i, plan, final, {
        "minimised_from_steps": orig_n, "minimised_to_steps": n, "shrink_executions": tries,
        "note": note})
    for _ in range(8):  # (code that depends on addresses or the like may need more than one)
        code, text = fresh_replay(path)
        other = code != 0 and "REPLAY different: " in text and "(digest" in text
        if code == 0 or other:
            break
    print("minimised from %d to %d steps in %d executions; replay in a fresh process: %s" % (
        orig_n, n, tries, text.splitlines()[-1] if text else "exit %d" % code))
    for line in final["trace"][-25:]:
        print("   " + line)
    if other:
        print("the replay shows the violation with other details: the code under test is not deterministic")
    elif code != 0:
        print("HARNESS ERROR: replay did not reproduce (exit %d)" % code, file=sys.stderr)
        return 2, 0
    print("VIOLATION property=%s replay=%s" % (prop, path))
    return 1, 1


def report_stuck(prop, seed, tier, i):
    plan = make_plan_fresh(prop, seed, i, tier)
    path = write_replay(prop, seed, i, plan, {
        "viol": ("does-not-terminate", "run %d exceeds %d s" % (i, RUN_LIMIT_S)), "digest": ""}, {})
    code, text = fresh_replay(path)
    if code != 0:
        print("HARNESS ERROR: run %d was stuck once, then terminated" % i, file=sys.stderr)
        return 2, 0
    print("run %d does not terminate" % i)
    print("VIOLATION property=%s replay=%s" % (prop, path))
    return 1, 1


def evidence(prop, tier, seed, mod, agg, wall, nviol):
    os.makedirs(EVID, exist_ok=True)
    hours = max(wall, 0.001) / 3600
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": agg["runs"],
            "distinct_nontrivial": len(agg["nontrivial"]),
            "rule": mod.RULE
            + " A run counts as non-trivial if a fault fired, threads were switched or a message was delivered; distinct means a different digest of its complete event log.",
            "samples": agg["samples"],
            "runs_per_hour": int(agg["runs"] / hours),
            "seeds_per_hour": int(agg["runs"] / hours),
            "simulated_seconds": round(agg["elapsed"], 3),
            "events_logged": agg["events"],
            "operations": dict(sorted(agg["ops"].items())),
            "faults_fired": dict(sorted(agg["faults"].items())),
            "runs_with_a_fault": agg["faulted"],
            "probes": dict(sorted(agg["probes"].items())),
            "probes_never_hit": sorted(p for p in getattr(mod, "PROBES", ()) if not agg["probes"].get(p)),
            "thread_switches": agg["switches"],
            "scheduling_points": agg["yields"],
            "distinct_interleavings": len(agg["sigs"]),
            "interleaving_measure": "digest of the sequence of thread switches, fault kinds and message deliveries of a run",
            "real_components": mod.REAL,
            "stubbed_components": mod.STUB,
            "known_findings_seen": {k: v[0] for k, v in sorted(agg["findings"].items())},
        },
        "assumptions": getattr(mod, "ASSUME", []),
        "wall_s": round(wall, 2),
        "violations": nviol,
    }
    tmp = os.path.join(EVID, ".%s.tmp" % prop)
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1, default=str)
    os.replace(tmp, os.path.join(EVID, prop + ".json"))
