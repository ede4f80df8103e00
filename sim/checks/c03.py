"""C03: operations leave the process and their arguments as they found them."""
import contextlib
import decimal
import gc
import io
import json as _json
import locale
import logging
import os
import random as _random
import signal
import socket
import sys
import tempfile
import threading
import time as _time
import warnings
import atexit

import rlp as _rlp

from .. import gen, keyworld, seams, simfs
from ..kernel import short
from ..seams import CLOCK, RNG, real
from ..simfs import SimFS
from ..storage import Faults, SimStore
from ..world import Obj, sim_keys

RUNS = {"quick": 3000, "thorough": 50000}
RULE = ("The whole library is imported and used in one process: tries of every form, Merkle trees, proofs, key pairs on a failing disk, encryption, "
        "identifiers, file questions, while storage, disk and random source fail and calls are interrupted; what belongs to the process is "
        "compared before and after every operation and at every access another thread could run at, arguments before and after.")
REAL = ["pymt.mpt", "pymt.empt", "pymt.mt", "pymt.merkletools", "pymt.proof", "pymt.keypairs", "pymt.utils", "rlp", "Crypto", "json"]
STUB = ["node and data stores", "file system (SimFS)", "random source (seeded)", "clock", "thread scheduler", "keys (fixed 1024-bit keys)"]
PROBES = ("import", "trie", "stored", "sparse", "merkle", "proof", "codec", "keys", "crypt", "saved", "loaded", "question", "deep", "store-failed",
          "disk-failed", "rng-failed", "aborted", "bad-call", "between", "given-list", "damaged-proof", "threads", "seeded-generator", "relative")

MODULES = [os, os.path, _json, _json.encoder, _json.decoder, _rlp, _rlp.codec, _random, _time, threading, signal, sys, io, tempfile, warnings, logging, gc,
           locale, decimal, socket]


def _names():
    import builtins
    import hashlib

    import Crypto.Cipher.AES
    import Crypto.Cipher.PKCS1_OAEP
    import Crypto.Hash.SHA256
    import Crypto.PublicKey.RSA
    import Crypto.Random
    import Crypto.Signature.pss

    mods = MODULES + [builtins, hashlib, Crypto.Cipher.AES, Crypto.Cipher.PKCS1_OAEP, Crypto.Hash.SHA256, Crypto.PublicKey.RSA,
                      Crypto.Random, Crypto.Signature.pss, _rlp.sedes, seams.real.datetime]
    out = {}
    for m in mods:
        for n, v in list(vars(m).items()):
            if n not in ("__warningregistry__", "last_exc", "last_type", "last_value", "last_traceback", "stdout", "stderr", "_", "getpid",
                         "unraisablehook", "modules", "path_importer_cache"):
                out[m.__name__, n] = (m, v)
    return out


def _umask():
    m = os.umask(0o22)
    os.umask(m)
    return m


def _level(n):
    lg = logging.getLogger(n)
    return (lg.level, tuple(lg.handlers), lg.disabled, lg.propagate)


def _set_level(n, v):
    lg = logging.getLogger(n)
    lg.level, lg.handlers[:], lg.disabled, lg.propagate = v[0], v[1], v[2], v[3]


SIGNALS = [signal.SIGINT, signal.SIGTERM, signal.SIGHUP, signal.SIGPIPE, signal.SIGUSR1, signal.SIGALRM, signal.SIGCHLD]


def _set_env(v):
    os.environb.clear()
    os.environb.update(v)
    _time.tzset()


def _put(obj, name):
    return lambda v: setattr(obj, name, v)


_getcwd, _chdir = os.getcwd, os.chdir
# what is looked at at every moment: name -> (read, write back)
FAST = {
    "working directory": (lambda: simfs.CUR[0].cwd if simfs.CUR[0] is not None and simfs.CUR[0].cwd is not None else _getcwd(), _chdir),
    "file mode mask": (_umask, os.umask),
    "recursion limit": (sys.getrecursionlimit, sys.setrecursionlimit),
    "environment": (lambda: dict(os.environ._data), _set_env),
    "standard output": (lambda: sys.stdout, _put(sys, "stdout")),
    "standard error": (lambda: sys.stderr, _put(sys, "stderr")),
    "switch interval": (sys.getswitchinterval, sys.setswitchinterval),
    "garbage collection": (gc.isenabled, lambda v: gc.enable() if v else gc.disable()),
}
# what is looked at between operations
SLOW = {
    "standard input": (lambda: sys.stdin, _put(sys, "stdin")),
    "time zone": (lambda: (_time.tzname, _time.timezone, _time.altzone, _time.daylight), None),
    "random generator": (_random.getstate, _random.setstate),
    "warning filters": (lambda: list(warnings.filters), lambda v: warnings.filters.__setitem__(slice(None), v)),
    "logging": (lambda: (logging.root.manager.disable, _level(None)), lambda v: (_set_level(None, v[1]), logging.disable(v[0]))),
    "locale": (lambda: locale.setlocale(locale.LC_ALL), lambda v: locale.setlocale(locale.LC_ALL, v)),
    "decimal context": (lambda: (decimal.getcontext().prec, decimal.getcontext().rounding), lambda v: decimal.setcontext(decimal.Context(v[0], v[1]))),
    "number text limit": (sys.get_int_max_str_digits, sys.set_int_max_str_digits),
    "exception hooks": (lambda: (sys.excepthook, threading.excepthook), None),
    "search path": (lambda: list(sys.path), lambda v: sys.path.__setitem__(slice(None), v)),
    "socket timeout": (socket.getdefaulttimeout, socket.setdefaulttimeout),
    "exit handlers": (atexit._ncallbacks, None),
    "threads": (lambda: sorted(t.name for t in threading.enumerate()), None),
    "collector thresholds": (gc.get_threshold, lambda v: gc.set_threshold(*v)),
    "temporary directory": (lambda: tempfile.tempdir, _put(tempfile, "tempdir")),
    "float and text stack size": (lambda: threading.stack_size(), lambda v: threading.stack_size(v)),
}
if threading.current_thread() is threading.main_thread():
    SLOW["signal handlers"] = (lambda: [signal.getsignal(s) for s in SIGNALS],
                               lambda v: [signal.signal(s, h) for s, h in zip(SIGNALS, v) if h is not None])
BASE = {}


def base():
    """The settings before the code under test was ever imported here."""
    if not BASE:
        for n in ("recursion limit", "file mode mask", "switch interval", "garbage collection", "warning filters", "logging", "locale",
                  "decimal context", "number text limit", "socket timeout", "collector thresholds", "float and text stack size", "search path"):
            BASE[n] = {**FAST, **SLOW}[n][0]()
    return BASE


base()


def put_back(state):
    for n, v in state.items():
        w = {**FAST, **SLOW}[n][1]
        if w is not None and {**FAST, **SLOW}[n][0]() != v:
            w(v)


OPS = {"set": 4, "del": 1.5, "get": 2, "poi": 2, "poe": 1, "verify": 2.5, "codec": 1.5, "put": 4, "mproof": 3, "mverify": 2, "mcodec": 1, "eq": 0.6,
       "derive": 0.8, "build": 0.6, "sign": 0.6, "enc": 0.6, "crypt": 0.7, "save": 2, "load": 1.5, "string": 0.6, "id": 0.5, "stamp": 0.6, "ask": 1,
       "ecc": 0.2, "hash": 0.6, "pem": 0.4, "bad": 1, "import": 0.25, "iter": 0.5, "show": 0.5, "threads": 0.4}


def plan(rng, i, tier):
    deep = rng.random() < 0.06
    ks = gen.tower(rng) if deep else gen.keys(rng, rng.choice([1, 3, 6, 12]))
    if deep:
        ks = [k[:100] for k in sorted(ks, key=len)[-40:]]
    vals = gen.values(rng, 6)
    steps = []
    if not deep and rng.random() < 0.6:
        steps = [{"o": "set", "k": j, "v": rng.randrange(len(vals)), "t": t, "x": 4} for j in range(len(ks)) for t in (0, 0, rng.randrange(3)) if rng.random() < 0.5]
    if deep:
        steps = [{"o": "set", "k": j, "v": j % len(vals), "t": 0, "x": 0} for j in range(len(ks))]
    for _ in range(rng.choice([6, 12, 25])):
        o = gen.pick(rng, OPS)
        s = {"o": o, "k": rng.randrange(len(ks)), "v": rng.randrange(len(vals)), "t": rng.randrange(3), "x": rng.randrange(1 << 12), "p": rng.randrange(6)}
        if o == "threads":
            s["ops"] = [[[gen.pick(rng, {"save": 3, "load": 1, "crypt": 1, "poi": 1, "get": 2, "ask": 1, "sign": 1, "mproof": 1, "set": 1}), rng.randrange(len(ks)),
                          rng.randrange(1 << 12)] for _ in range(rng.choice([1, 2]))] for _ in range(rng.choice([2, 3]))]
        elif rng.random() < 0.5:
            r = rng.random()
            if o in ("save", "load", "ask"):
                if r < 0.7:
                    s["f"] = [{"s": "fs", "on": rng.choice(["any", "any", "write", "fsync", "close", "create", "rename", "stat", "chmod"]), "n": int(rng.expovariate(0.35)),
                               "k": rng.choice(["before", "after", "partial"]), "e": rng.choice(["nospc", "io", "io", "perm", "mem", "mfile"]), "c": rng.randrange(4096),
                               "len": rng.choice([1, 1, 2, 50])}]
                elif r < 0.8:
                    s["cap"] = rng.choice([0, 50, 1500])
                else:
                    s["f"] = [gen.line_fault(rng, 40)]
            elif o in ("enc", "crypt", "id", "ecc", "string", "sign"):
                if r < 0.6:
                    s["rng"] = [rng.choice([0, 0, 1, 2]), rng.choice([1, 2, None])]
                else:
                    s["f"] = [gen.line_fault(rng, 20)]
            elif r < 0.6:
                s["f"] = [{"s": rng.choice(["x", "y"]), "on": rng.choice(["any", "read", "write"]), "n": rng.randrange(4), "k": rng.choice(["before", "after"]),
                           "e": rng.choice(["store", "os", "key", "timeout", "mem", "val"]), "len": rng.choice([1, 1, 30])}]
            else:
                s["f"] = [gen.line_fault(rng, 60)]
        steps.append(s)
    return gen.times(rng, {"cfg": {"secure": rng.random() < 0.3, "lines": not deep and rng.random() < 0.15, "seeded": rng.random() < 0.3, "cwd": rng.choice([0, 0, 1, 2])}, "keys": gen.hexes(ks), "vals": gen.hexes(vals),
                           "steps": steps, "sched": {"mode": "seed", "seed": rng.randrange(1 << 40), "lines": False, "p": rng.choice([0.2, 0.5])}})


def fields(p):
    return (p.type, p.timestamp, p.target_key, p.trie_root, type(p.proof), list(p.proof))


def run(sim, plan):
    simfs.install()
    before = {n: g() for n, (g, w) in {**FAST, **SLOW}.items()}
    names = _names()
    old_hooks = sys.unraisablehook
    sys.unraisablehook = lambda *a: None
    show = warnings.showwarning
    try:
        with warnings.catch_warnings():
            warnings.showwarning = lambda *a, **k: None
            put_back(BASE)
            _run(sim, plan)
    finally:
        warnings.showwarning = show
        sys.unraisablehook = old_hooks
        for (m, n), (mod, v) in names.items():
            if vars(mod).get(n, names) is not v:
                with contextlib.suppress(TypeError, AttributeError):
                    setattr(mod, n, v)
        put_back({n: v for n, v in before.items() if n != "random generator"})
        simfs.CUR[0] = None
        _chdir(before["working directory"])


def _run(sim, plan):
    keys, vals = sim_keys(plan)
    secure = plan["cfg"]["secure"]
    fs = SimFS(sim)
    out_, err_ = io.StringIO(), io.StringIO()
    sys.stdout, sys.stderr = out_, err_
    if plan["cfg"]["seeded"]:
        # the caller has seeded the process-wide generator and relies on what it gives
        _random.seed(4711)
        sim.probe("seeded-generator")
    if plan["cfg"]["cwd"]:
        fs.mkdir("/simdisk/keys")
        fs.cwd = "/simdisk" if plan["cfg"]["cwd"] == 1 else "/simdisk/keys"
        sim.probe("relative")
    settings = {n: g() for n, (g, w) in {**FAST, **SLOW}.items()}
    names = _names()
    doing = ["importing"]
    busy = [False]

    def differ(which, when):
        for n, (g, w) in which.items():
            now = g()
            if now != settings[n]:
                was = settings[n]
                if n == "random generator":
                    was, now = "one state", "another"
                elif n == "environment":
                    d = sorted(k for k in set(was) | set(now) if was.get(k) != now.get(k))
                    was, now = {k: was.get(k) for k in d}, {k: now.get(k) for k in d}
                sim.fail("process-" + n.replace(" ", "-"), "%s %s, the %s of the process is %s, it was %s" % (when, doing[0], n, short(now), short(was)))

    def settled():
        differ(FAST, "after")
        differ(SLOW, "after")
        if out_.getvalue() or err_.getvalue():
            sim.fail("prints", "%s printed %s" % (doing[0], short((out_.getvalue() + err_.getvalue())[:80])))

    def others():
        for (m, n), (mod, v) in names.items():
            now = vars(mod).get(n, names)
            if now is not v and not (isinstance(v, (int, float, str, tuple)) and now == v):
                sim.fail("process-names", "after %s, %s.%s of the process is another object" % (doing[0], m, n))

    def moment(kind, old=sim.yield_point):
        """Something else in the process may run now."""
        if not busy[0]:
            busy[0] = True
            try:
                sim.probe("between")
                differ(FAST, "in the middle of")
            finally:
                busy[0] = False
        old(kind)

    P = seams.load_pymt()
    if not plan["cfg"]["seeded"]:
        settings["random generator"] = _random.getstate()  # (the simulator seeds it for a new process)
    else:
        _random.seed(4711)
    sim.probe("import")
    settled()
    sim.yield_point = moment
    if plan["cfg"]["lines"]:
        line = sim.on_line

        def on_line():
            moment("line")
            line()
        sim.on_line = on_line
    x, y = SimStore(sim, "x"), SimStore(sim, "y")
    stores = {"x": x, "y": y, "fs": fs}
    tries = [P.MPT(SimStore(sim, "m"), secure=secure), P.EMPT(x, y, secure=secure), P.SparseEMPT(SimStore(sim, "z"), secure=secure)]
    stores["x"], stores["m"] = x, tries[0]._storage if hasattr(tries[0], "_storage") else x
    mts = [P.MerkleTree(secure=True), P.MerkleTree(secure=False), P.MerkleTools(hash_type="sha256", secure=True)]
    leaves = [[], [], []]
    proofs, mproofs, blobs, strings, msgs = [], [], [], [], []
    pool = {}
    args = []  # (description, object, picture of it)

    def given(what, obj, picture):
        args.append((what, obj, picture, picture(obj)))
        return obj

    def kp(n, cls="RsaKeyPair"):
        if (n, cls) not in pool:
            pool[n, cls] = keyworld.party(P, n, cls)
        return pool[n, cls]

    def make(s):
        """The operation of a step, as a function to call."""
        o, k, v, z = s["o"], keys[s["k"] % len(keys)], vals[s.get("v", 0) % len(vals)], s["x"]
        t = tries[s.get("t", 0)]
        m = s.get("t", 0)
        if o == "set":
            sim.probe(("trie", "stored", "sparse")[m])
            if m and z % 5 == 0:
                obj = given("a stored object", Obj(v), lambda q: (q.p, sorted(vars(q))))
                return lambda: t.__setitem__(k, obj)
            if m and z % 5 == 1:
                arr = given("a stored bytearray", bytearray(v), bytes)
                return lambda: t.__setitem__(k, arr)
            return lambda: t.__setitem__(k, v)
        if o == "del":
            return lambda: t.__delitem__(k)
        if o == "get":
            return (lambda: t[k]) if z % 2 and m != 2 else (lambda: k in t)
        if o in ("poi", "poe"):
            def prove():
                p = (t.get_proof_of_inclusion if o == "poi" else t.get_proof_of_exclusion)(k)
                proofs.append((m, p))
            return prove
        if o == "verify" and proofs:
            m, p = proofs[z % len(proofs)]
            sim.probe("proof")
            if z % 2:
                # the verifier's own copy
                nodes = list(p.proof)
                if z % 5 and nodes:
                    j = -1 - z // 2 % len(nodes) if z % 7 else -1
                    b = nodes[j]
                    nodes[j] = (b[:-1], b"", b"\xf8", b + b"\0", bytes([b[0] ^ 1]) + b[1:], b[:-1] + bytes([b[-1] ^ 1]), b"\xc0", v)[z // 8 % 8]
                    if z % 13 == 0:
                        nodes.pop(j)
                    sim.probe("damaged-proof")
                p = P.Proof(target_key=p.target_key, root_hash=p.trie_root, proof=tuple(nodes), proof_type=p.type)
            given("a proof", p, fields)
            t = tries[m]
            return lambda: (t.verify_proof_of_inclusion if p.type == b"MPT-POI" else t.verify_proof_of_exclusion)(p)
        if o == "codec":
            sim.probe("codec")
            if m == 0:
                return lambda: P.MPT.decode(t.encode())
            if m == 2:
                return lambda: P.SparseEMPT.decode_rlp(t.encode_rlp())
            return lambda: P.RootEMPT.decode_rlp(t.get_root_trie().encode_rlp())
        if o == "derive":
            if m == 0:
                return lambda: hash(t) == hash(tries[0])
            return (lambda: t.get_root_trie()) if m == 2 or z % 2 else (lambda: t.get_sparse_trie())
        if o == "build" and m == 1:
            return t.build_trie
        if o == "eq":
            return lambda: [a == b for a in tries + mts for b in tries + mts]
        if o == "iter" and m == 1:
            return lambda: (list(t), len(t))
        if o == "put":
            sim.probe("merkle")
            m = (m, 2)[z // 4 % 2]

            def add():
                if m < 2 and z % 3 == 0:
                    vs = [k + v, k, v]
                    given("the list of values added to a Merkle tree", vs, list)
                    sim.probe("given-list")
                    mts[m].put_list(vs)
                    leaves[m].extend(vs)
                else:
                    (mts[m].put if m < 2 else mts[m].add_leaf)(given("a bytearray added to a Merkle tree", bytearray(k + v), bytes) if z % 4 == 1 else k + v)
                    leaves[m].append(k + v)
                mts[m].make_tree()
            return add
        if o == "mproof":
            m = next((j for j in (m, 2, 0, 1) if leaves[j]), m)
        if o == "mproof" and leaves[m]:
            def mprove():
                p = mts[m].get_proof_of_inclusion(leaves[m][z % len(leaves[m])])
                if m < 2:
                    mproofs.append((m, p))
                else:
                    given("a Merkle path", p, lambda q: [dict(e) for e in q])
                    target = given("the target of a Merkle path", bytearray.fromhex(mts[m].get_leaf(z % len(leaves[m]))), bytes)
                    root = given("the root of a Merkle path", bytearray.fromhex(mts[m].get_merkle_root()), bytes)
                    mts[m].verify_proof_of_inclusion(p, target, root)
            return mprove
        if o == "mverify" and mproofs:
            m, p = mproofs[z % len(mproofs)]
            given("a Merkle proof", p, fields)
            return lambda: mts[m].verify_proof_of_inclusion(p)
        if o == "mcodec" and mproofs:
            m, p = mproofs[z % len(mproofs)]
            given("a Merkle proof", p, fields)
            if z % 2:
                return lambda: P.Proof.decode_rlp(p.encode_rlp())

            def text():
                q = p.encode_json()
                if isinstance(q, dict):
                    given("a proof in JSON form", q, lambda d: _json.dumps(d, default=repr))
                P.Proof.decode_json(q)
            return text
        if o == "sign":
            a = kp(z % 3, ("RsaKeyPair", "RsaAuthKeyPair")[z % 2])
            return lambda: a.signature_valid(v, a.sign(v))
        if o == "enc":
            a, b = kp(z % 3), kp(z % 2)
            sim.probe("keys")
            return lambda: b.decrypt(a.encrypt(v, b.public_key), a.public_key)
        if o == "crypt":
            sim.probe("crypt")
            pw = ("password", "password", "wrong")[z % 3]

            def crypt():
                blobs.append(P.Utils.encrypt(v, "password"))
                return P.Utils.decrypt(blobs[z % len(blobs)], pw)
            return crypt
        name = ("/simdisk/f%d" if not plan["cfg"]["cwd"] else ("f%d", "./f%d", "../simdisk/f%d")[z % 2 if plan["cfg"]["cwd"] == 1 else 2]) % (z % 3)
        if o == "save":
            a = kp(z % 3, ("RsaKeyPair", "RsaAuthKeyPair", "RsaEncKeyPair")[z % 3])

            def save():
                a.to_key_file(name, "passphrase")
                sim.probe("saved")
            return save
        if o == "load":
            def load():
                P.RsaKeyPair.from_key_file(name, "wrong" if z % 5 == 0 else "passphrase")
                sim.probe("loaded")
            return load
        if o == "string":
            a = kp(z % 3)
            return lambda: P.RsaKeyPair.from_key_string(a.to_key_string("p"), "p" if z % 3 else "q")
        if o == "id":
            return lambda: (P.Utils.get_id(), P.Utils.get_id_string(), P.RsaKeyPair(_generate_keys=False).nickname)
        if o == "stamp":
            U = P.Utils
            return lambda: (U.get_timestamp(), U.get_datetime_stamp(), U.from_timstamp_string(U.get_timestamp_string() if z % 3 else "no time"))
        if o == "ask":
            sim.probe("question")
            name = (name, "/simdisk", "/simdisk/none/x", "relative", "")[z % 5]
            return lambda: (P.Utils.file_exists(name), P.Utils.dir_exists(name))
        if o == "ecc":
            return P.Utils.generate_ecc_key
        if o == "hash":
            alg = ("sha256", "sha512", "md5", "none")[z % 4]
            return lambda: P.Utils.hash_data(v, type=alg) if z % 3 else (P.Utils.sha256(v), P.Utils.sha512(v, finalize=False))
        if o == "pem":
            return lambda: P.Utils.rsa_key_valid(keyworld.pub(z % 3) if z % 2 else v)
        if o == "show":
            return lambda: [f(q) for q in tries + mts + [p for _, p in proofs + mproofs][:2] + list(pool.values()) for f in (repr, str)]
        if o == "bad":
            sim.probe("bad-call")
            odd = (None, 5, "text", [1], object())[z % 5]
            ba = given("a bytearray", bytearray(v + b"x"), bytes)
            ls = given("a list", [1, [2]], lambda q: _json.dumps(q))
            odd = (odd, ba, ls)[z % 3]
            return [lambda: t.__setitem__(odd, v), lambda: t[odd], lambda: t.__setitem__(k, odd), lambda: mts[m].put(odd), lambda: P.MPT.decode(odd),
                    lambda: P.Utils.encrypt(odd, "p"), lambda: P.Utils.hash_data(odd), lambda: P.Proof.decode_rlp(odd), lambda: kp(0).sign(odd),
                    lambda: P.RsaKeyPair.from_key_string(odd, odd), lambda: P.Utils.file_exists(odd), lambda: t.verify_proof_of_inclusion(odd),
                    lambda: P.MerkleTree(hash_type="none")][s["p"] * 7 % 13]
        if o == "import":
            return None
        return lambda: len(t)

    for n, s in enumerate(plan["steps"]):
        o = s["o"]
        sim.ops[o] += 1
        doing[0] = "%s (step %d)" % (o, n)
        if o == "import":
            # (another copy of the library, as importlib.reload or a second interpreter would load)
            st = _random.getstate()
            seams.load_pymt()
            _random.setstate(st)
            sim.log("import")
            settled()
            continue
        if o == "threads":
            def task(ops):
                def body():
                    for a, k, z in ops:
                        out = sim.call(make({"o": a, "k": k, "v": z, "x": z, "t": z % 3}))
                        if out.crashed:
                            raise out.exc
                return body
            settings["threads"] = None
            slow = SLOW.pop("threads")
            try:
                sim.run_tasks([task(ops) for ops in s["ops"]])
            finally:
                SLOW["threads"] = slow
            settings["threads"] = slow[0]()
            sim.probe("threads")
            sim.log("threads")
            settled()
            continue
        fn = make(s)
        f0, r0, l0, d0 = sim.fired(), RNG.fired, sim._line_fired, fs.fired
        if "rng" in s:
            RNG.arm(*s["rng"])
        if "cap" in s:
            fs.capacity = s["cap"]
        with Faults(sim, stores, s.get("f")):
            if plan["cfg"]["lines"] and not any(f.get("s") == "line" for f in s.get("f", ())):
                with sim.tracing():
                    out = sim.call(fn)
            else:
                out = sim.call(fn)
        RNG.disarm()
        fs.capacity = None
        if out.exc is not None:
            out.exc.__context__ = out.exc.__cause__ = None
        aborted = sim._line_fired > l0
        for name, hit in (("rng-failed", RNG.fired > r0), ("aborted", aborted), ("disk-failed", fs.fired > d0),
                          ("store-failed", sim.fired() - f0 > (RNG.fired - r0) + (fs.fired - d0) + (sim._line_fired - l0))):
            if hit:
                sim.probe(name)
        if RNG.fired > r0:
            sim.fault("random-source")
        sim.log(o, out.ok, out.err or "")
        settled()
        if fs.fds:
            gc.collect()
        if fs.fds and not aborted:
            sim.fail("handle", "%s left %d file handles open" % (doing[0], len(fs.fds)))
        for fd in list(fs.fds):
            fs.fds.pop(fd)
        for what, obj, picture, was in args:
            if picture(obj) != was:
                sim.fail("argument", "%s changed %s it was given" % (doing[0], what))
        del args[:-20]
        if plan["steps"] and len(keys) > 30:
            sim.probe("deep")
    doing[0] = "the last operation"
    others()
