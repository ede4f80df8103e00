"""Lines of pymt that a check's runs execute: cover.py RUNS [PROP...] prints what none of them reached.  (A development aid.)"""
import dis
import json
import multiprocessing as mp
import os
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)


def one(args):
    prop, n = args
    from sim import harness, seams

    seams.install()
    mod = harness.load(prop)
    seen = set()
    mon = sys.monitoring
    mon.use_tool_id(3, "cover")

    def line(code, no):
        if code.co_filename.startswith(seams.PKG):
            seen.add((os.path.relpath(code.co_filename, seams.PKG), no))
        return mon.DISABLE

    mon.register_callback(3, mon.events.LINE, line)
    mon.set_events(3, mon.events.LINE)
    for i in range(n):
        harness.execute(mod, harness.make_plan(mod, prop, 1, i, "quick"))
    mon.set_events(3, 0)
    return prop, sorted(seen)


def lines(path):
    out = set()

    def walk(c):
        out.update(n for _, n in dis.findlinestarts(c) if n)
        for x in c.co_consts:
            if hasattr(x, "co_code"):
                walk(x)

    with open(path, newline="") as f:
        walk(compile(f.read(), path, "exec"))
    return out


def main():
    n = int(sys.argv[1])
    props = sys.argv[2:] or sorted(f[:-3].upper() for f in os.listdir(VERIF + "/sim/checks") if f[0] != "_")
    from sim import seams

    seen = set()
    with mp.get_context("spawn").Pool(8, maxtasksperchild=1) as p:
        for prop, s in p.imap_unordered(one, [(x, n) for x in props]):
            seen.update(map(tuple, s))
    for f in sorted({x[0] for x in seen}):
        path = os.path.join(seams.PKG, f)
        src = open(path).read().splitlines()
        miss = sorted(x for x in lines(path) if (f, x) not in seen)
        print("== %s: %d of %d lines not reached" % (f, len(miss), len(lines(path))))
        for x in miss:
            print("%5d %s" % (x, src[x - 1]))


if __name__ == "__main__":
    main()
