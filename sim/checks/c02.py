"""C02: existence checks answer for the disk and the working directory of the moment."""
import sys

from .. import gen, seams, simfs
from ..seams import CLOCK
from ..simfs import SimFS
from ..storage import Faults

RUNS = {"quick": 12000, "thorough": 200000}
RULE = ("Files and directories on a simulated disk appear, disappear, are renamed and replaced by one another, the working directory changes, "
        "names become unreadable to the process, processes restart, power failures take back unsynced names, calls to the disk fail; all the while threads and single callers ask "
        "whether files and directories exist, by absolute names and names relative to the working directory.  Every answer is the state of "
        "the disk at a moment between question and answer.")
REAL = ["pymt.utils.utils", "os.path", "pathlib"]
STUB = ["file system and working directory (SimFS)", "clock", "thread scheduler"]
ASSUME = ["a failing disk may make existing things look absent while it fails"]
PROBES = ("file-yes", "file-no", "dir-yes", "dir-no", "dir-as-file", "file-as-dir", "relative", "parent", "root-dot", "changed-kind", "power-loss",
          "restart", "failed-call", "after-failure", "under-file", "threads", "raced", "directory-moved", "odd-name", "link-to-file", "link-to-dir", "link-to-nothing", "link-loop", "through-link", "up-from-link", "full-directory-moved", "doubled-slash", "unreadable", "in-unlistable")
NAMES = ["a", "b", "a b", "\u00e9", "A", "a.txt", "..a", "~", "~root", "$HOME", "${PATH}", "%41", "a ", "-a", "*", "[ab]", "a\\b", "e\u0301", "x" * 255, "a\n", "a.", "b..", "...", ".a", " a", "a,b", "\u4e2d\u6587"]


def path(rng):
    return "/".join(rng.choice(NAMES[:2] if rng.random() < 0.7 else NAMES) for _ in range(rng.choice([1, 1, 2, 3])))


def plan(rng, i, tier):
    steps, links = [], []
    for _ in range(rng.choice([8, 20, 40])):
        o = gen.pick(rng, {"file": 3, "dir": 2, "rm": 3, "mv": 1.5, "link": 1, "ask": 12, "cd": 1, "restart": 0.2, "power": 0.5, "sync": 0.4, "threads": 0.5, "hide": 0.6})
        s = {"o": o, "x": path(rng) if not steps or rng.random() < 0.4 else rng.choice(steps[-6:])["x"]}
        if o == "mv":
            s["y"] = path(rng)
        elif o == "link":
            made = [q["x"] for q in steps if q["o"] in ("file", "dir")]
            t = rng.choice(made[-3:]) if made and rng.random() < 0.8 else path(rng)
            s["x"] = rng.choice(["l", "m", t.split("/")[0] + "/l"])
            links.append((s["x"], t))
            s["t"] = rng.choice(["/simdisk/" + t] * 4 + [t, "../" + t, "./" + t + "/", "..", ".", s["x"].split("/")[-1]])
        elif o == "ask":
            s.update(k=rng.choice("fd"), w=rng.choice(["abs", "abs", "rel", "rel", "dot", "up", "dots", "slash", "relslash", "twice", "back", "back", "reltwo"]))
            if links and rng.random() < 0.3:
                l, t = rng.choice(links)
                below = [q["x"][len(t):] for q in steps if q["x"].startswith(t + "/")]
                s["x"] = l + (rng.choice(below) if below and rng.random() < 0.6 else "")
            if s["w"] == "reltwo":
                s["y"] = rng.choice(["a", "aa"])
            if s["w"] == "back":
                s["y"] = rng.choice(links)[0] if links and rng.random() < 0.5 else rng.choice(steps)["x"] if steps else path(rng)
                if s["y"] in [l for l, _ in links] and rng.random() < 0.7:
                    t = dict(links)[s["y"]]
                    beside = [q["x"] for q in steps if q["x"].rpartition("/")[0] == t.rpartition("/")[0]]
                    s["x"] = rng.choice(beside).rpartition("/")[2] if beside else s["x"]
            if rng.random() < 0.15:
                s["f"] = [gen.line_fault(rng, 6)] if rng.random() < 0.3 else [
                    {"s": "fs", "on": rng.choice(["any", "stat", "getcwd"]), "n": rng.randrange(2), "k": rng.choice(["before", "after"]),
                     "e": rng.choice(["io", "perm", "mfile", "mem", "intr"]), "len": rng.choice([1, 9])}]
        elif o == "hide":
            if rng.random() < 0.3:
                s["x"] = s["x"].rpartition("/")[0]
        elif o == "power":
            s["m"] = rng.randrange(8)
        elif o == "threads":
            s["ops"] = [[[rng.choice(["ask", "ask", "file", "dir", "rm"]), path(rng), rng.choice("fd"), rng.choice(["abs", "rel"])]
                         for _ in range(rng.choice([1, 2, 3]))] for _ in range(rng.choice([2, 3]))]
            for t in s["ops"][1:]:
                for q in t:
                    if rng.random() < 0.6:
                        q[1] = s["ops"][0][0][1]
        steps.append(s)
        if o == "link" and rng.random() < 0.6:
            steps += [{"o": rng.choice(["file", "dir"]), "x": s["x"] + "/n"}, {"o": "ask", "x": rng.choice([s["x"], t]) + "/n", "k": rng.choice("fd"), "w": "abs"}]
    return gen.times(rng, {"cfg": {}, "keys": [], "vals": [], "steps": steps,
                           "sched": {"mode": "seed", "seed": rng.randrange(1 << 40), "lines": rng.random() < 0.5, "p": rng.choice([0.1, 0.3, 0.6])}})


def run(sim, plan):
    simfs.install()
    sys.unraisablehook = lambda *a: None
    fs = SimFS(sim)
    fs.mkdir("/simdisk/w")
    fs.strict = True
    P = [sim.P]
    cwd = ["/simdisk"]
    history = []  # every state of the disk's names, as they change
    kinds = {}

    def snap():
        now = {p: fs.kind(p) for p in fs.names}
        if not history or history[-1] != now:
            for p, k in now.items():
                k = k[0]
                if kinds.get(p, k) != k:
                    kinds[p] = "both"
                kinds.setdefault(p, k)
            history.append(now)

    def what(h, p):
        """What name p stands for, links followed: "f", "d" or None."""
        try:
            return h.get(simfs.resolve(h.get, p))
        except OSError as e:
            if e.errno == simfs.errno.ELOOP:
                sim.probe("link-loop")
            return None

    def full(x):
        return "/simdisk/" + x

    def touch(what, x, t=None):
        """Other programs at work on the disk."""
        p = full(x)
        fs.quiet = True
        try:
            if what == "file":
                fs.close(fs.open(p, simfs.os.O_CREAT | simfs.os.O_WRONLY))
            elif what == "dir":
                fs.mkdir(p)
            elif what == "link":
                fs.symlink(t, p)
            elif what == "rm":
                fs.rmdir(p) if fs.names[p].isdir else fs.unlink(p)
        except (OSError, KeyError):
            pass
        finally:
            fs.quiet = False
        snap()

    def spell(x, w, y=None):
        p = full(x)
        if w == "slash":
            return p + "/", p
        if w == "twice":
            return "/simdisk//" + x.replace("/", "//"), p
        if w == "back":
            if history[-1].get(full(y), "")[:1] == "l":
                sim.probe("up-from-link")
            return full(y) + "/../" + x, full(y) + "/../" + x
        if w in ("rel", "relslash"):
            end = "/" if w == "relslash" else ""
            if p.startswith(cwd[0] + "/"):
                sim.probe("relative")
                return "./" + p[len(cwd[0]) + 1:] + end, p
            return "./" + x + end, cwd[0] + "/" + x
        if w == "reltwo":
            # a doubled slash does not make the name absolute
            sim.probe("doubled-slash")
            if y is not None and len(y) % 2:
                return ".//" + x, cwd[0] + "/" + x
            return "./" + p, cwd[0] + p
        if w == "dot":
            sim.probe("root-dot")
            return "./", cwd[0]
        if w == "up":
            sim.probe("parent")
            return "./../" + x, simfs.os.path.normpath(cwd[0] + "/../" + x)
        if w == "dots":
            return "/simdisk/./" + x, p
        return p, p

    def ask(kind, x, w, fault=None, where="", y=None):
        if w in ("slash", "relslash"):
            kind = "d"
        name, p = spell(x, w, y)
        if not p.startswith("/simdisk"):
            return
        before = len(history) - 1
        fs.cwd = cwd[0]
        f0 = sim.fired()
        try:
            with Faults(sim, {"fs": fs}, fault):
                out = sim.call(P[0].Utils.file_exists if kind == "f" else P[0].Utils.dir_exists, name)
        finally:
            if not where:
                fs.cwd = None
        hit = sim.fired() > f0
        snap()
        truths = {what(h, p) == kind for h in history[before:]}
        sim.log("ask" + where, kind, name, cwd[0], out.ok, out.value if out.ok else out.err)
        word = "file" if kind == "f" else "directory"
        if w != "abs" and history[-1].get(cwd[0]) != "d":
            if out.ok and out.value and True not in truths:
                sim.fail("invented", "%s exists as a %s, it says; the working directory is gone" % (name, word))
            return
        if hit:
            sim.probe("failed-call")
            if out.ok and out.value and True not in truths:
                sim.fail("invented", "%s exists as a %s, it says after a failed call to the disk; it does not" % (name, word))
            return
        if not out.ok:
            sim.fail("raised", "asking whether %s exists as a %s%s %r" % (name, word, where, out))
        if out.value not in (True, False) or out.value not in truths:
            sim.fail("wrong", "whether %s exists as a %s (working directory %s)%s: it says %r, the disk has %s" % (
                name, word, cwd[0], where, out.value, {"f": "a file", "d": "a directory", None: "nothing"}[what(history[-1], p)]))
        sim.probe(("file-" if kind == "f" else "dir-") + ("yes" if out.value else "no"))
        now = what(history[-1], p)
        if history[-1].get(p, "")[:1] == "l":
            sim.probe({"f": "link-to-file", "d": "link-to-dir", None: "link-to-nothing"}[now])
        elif now and p not in history[-1] and w == "abs":
            sim.probe("through-link")
        if now and p in fs.names and not fs.names[p].mode & 0o400:
            sim.probe("unreadable")
        above = simfs.os.path.dirname(p)
        if now and above in fs.names and not fs.names[above].mode & 0o400:
            sim.probe("in-unlistable")
        if now and now != kind:
            sim.probe("dir-as-file" if now == "d" else "file-as-dir")
        if kinds.get(p) == "both":
            sim.probe("changed-kind")
        if history[-1].get(simfs.os.path.dirname(p)) == "f":
            sim.probe("under-file")
        if len(truths) > 1:
            sim.probe("raced")
        if any(c in x for c in " .\u00e9"):
            sim.probe("odd-name")
        if sim.faults:
            sim.probe("after-failure")

    snap()
    for s in plan["steps"]:
        o = s["o"]
        sim.ops[o] += 1
        if s.get("dt"):
            CLOCK.advance(s["dt"])
        if o in ("file", "dir", "rm"):
            touch(o, s["x"])
            sim.log(o, s["x"])
        elif o == "mv":
            a, b = full(s["x"]), full(s["y"])
            if a in fs.names and b not in fs.names:
                fs.quiet = True
                try:
                    at = fs.find(b, False)
                    below = any(q.startswith(a + "/") for q in fs.names)
                    isdir = fs.names[a].isdir
                    fs.rename(a, b)
                    if isdir:
                        sim.probe("full-directory-moved" if below else "directory-moved")
                        if cwd[0] == a or cwd[0].startswith(a + "/"):
                            cwd[0] = at + cwd[0][len(a):]
                except OSError:
                    pass
                fs.quiet = False
                snap()
            sim.log("mv", a, b)
        elif o == "hide":
            # its contents, or the list of its names, may not be read any longer
            p = full(s["x"]).rstrip("/")
            if p in fs.names:
                fs.names[p].mode = 0o311 if fs.names[p].isdir else 0
            sim.log("hide", p)
        elif o == "cd":
            if full(s["x"]) in fs.names and fs.names[full(s["x"])].isdir:
                cwd[0] = full(s["x"])
            else:
                cwd[0] = "/simdisk/w" if cwd[0] == "/simdisk" and "/simdisk/w" in fs.names else "/simdisk"
            sim.log("cd", cwd[0])
        elif o == "restart":
            P[0] = seams.load_pymt()
            sim.fault("restart")
            sim.probe("restart")
        elif o == "power":
            fs.power_loss(s["m"], lambda i: True, None)
            sim.fault("power-loss")
            sim.probe("power-loss")
            P[0] = seams.load_pymt()
            snap()
            if cwd[0] not in fs.names:
                cwd[0] = "/simdisk"
            sim.log("power-loss", str(len(fs.names)))
        elif o == "sync":
            fs.sync_all()
        elif o == "ask":
            ask(s["k"], s["x"], s["w"], s.get("f"), y=s.get("y"))
        elif o == "link":
            touch("link", s["x"], s["t"])
            sim.log("link", s["x"], s["t"])
        else:
            def task(ops):
                def body():
                    for what, x, k, w in ops:
                        if what == "ask":
                            ask(k, x, w, None, " in a thread")
                        else:
                            touch(what, x)
                            sim.yield_point("t")
                return body

            fs.cwd = cwd[0]
            try:
                sim.run_tasks([task(t) for t in s["ops"]])
            finally:
                fs.cwd = None
            sim.probe("threads")
    simfs.CUR[0] = None
