"""Seams: simulated clock, randomness and locks, and fresh imports of the code under test.

`install()` must run before `Crypto` is imported.  The harness keeps the real functions under
`real`; everything else in the process then reads the simulated ones.
"""
import contextlib
import datetime as _dtmod
import hashlib
import importlib.machinery
import importlib.util
import os
import random as _randmod
import sys
import threading as _thmod
import time as _timemod
import types
import weakref

SRC = os.environ.get("PYMT_SRC", "/repo/src")
PKG = os.path.join(SRC, "pymt")

real = types.SimpleNamespace(
    time=_timemod.time,
    time_ns=_timemod.time_ns,
    monotonic=_timemod.monotonic,
    monotonic_ns=_timemod.monotonic_ns,
    perf_counter=_timemod.perf_counter,
    sleep=_timemod.sleep,
    localtime=_timemod.localtime,
    gmtime=_timemod.gmtime,
    ctime=_timemod.ctime,
    asctime=_timemod.asctime,
    strftime=_timemod.strftime,
    urandom=os.urandom,
    datetime=_dtmod.datetime,
    date=_dtmod.date,
    Lock=_thmod.Lock,
    RLock=_thmod.RLock,
)


class Clock:
    """Simulated wall clock (may jump) and monotonic clock (never goes back)."""

    def __init__(self):
        self.reset()

    def reset(self, now=1_600_000_000.0):
        self.now = float(now)
        self.mono = 1000.0
        self.tick = 0.0  # added at every reading
        self.reads = 0
        self.elapsed = 0.0  # simulated time covered
        self.log = None

    def read(self):
        self.reads += 1
        v = self.now
        if self.tick:
            self.now += self.tick
            self.mono += self.tick
        return v

    def advance(self, d):
        if d > 0:
            self.now += d
            self.mono += d
            self.elapsed += d

    def jump(self, d):
        """A step of the wall clock only (NTP, operator)."""
        self.now += d

    def set(self, t):
        self.now = float(t)


class Rng:
    """Seeded stand-in for the operating system's random source."""

    def __init__(self):
        self.reset(b"0")

    def reset(self, seed):
        if not isinstance(seed, bytes):
            seed = str(seed).encode()
        self.seed = seed
        self.n = 0
        self.draws = 0
        self.bytes = 0
        self.fail_at = None  # draws from this many draws on fail (0: the next one)
        self.fail_for = None
        self.fired = 0
        self.small = 0

    def arm(self, at, count=None):
        self.fail_at = self.draws + at
        self.fail_for = count

    def disarm(self):
        self.fail_at = None

    @contextlib.contextmanager
    def aside(self):
        """Draws of the harness itself: from a stream of their own."""
        saved = dict(self.__dict__)
        self.reset(b"harness")
        try:
            yield
        finally:
            self.__dict__.clear()
            self.__dict__.update(saved)

    def __call__(self, n):
        d = self.draws
        self.draws += 1
        if self.fail_at is not None and d >= self.fail_at and (
            self.fail_for is None or d < self.fail_at + self.fail_for
        ):
            self.fired += 1
            raise OSError(5, "simulated failure of the random source")
        self.bytes += n
        if self.small and 2 <= n < 8:
            # a long history: values this short have all been seen before
            self.n += 1
            return hashlib.blake2b(b"%s|s|%d" % (self.seed, self.n % self.small), digest_size=8).digest()[:n]
        out = b""
        while len(out) < n:
            out += hashlib.blake2b(b"%s|%d" % (self.seed, self.n), digest_size=64).digest()
            self.n += 1
        return out[:n]


CLOCK = Clock()
RNG = Rng()
ACTIVE_SCHED = [None]  # the scheduler whose tasks are running, if any


class _DTMeta(type(_dtmod.datetime)):
    def __instancecheck__(cls, obj):
        return isinstance(obj, real.datetime)

    def __subclasscheck__(cls, sub):
        return issubclass(sub, real.datetime)


class SimDateTime(real.datetime, metaclass=_DTMeta):
    @classmethod
    def _of(cls, r):
        # fromtimestamp() of a subclass loses `fold`
        return cls(r.year, r.month, r.day, r.hour, r.minute, r.second, r.microsecond, r.tzinfo, fold=r.fold)

    @classmethod
    def fromtimestamp(cls, t, tz=None):
        return cls._of(real.datetime.fromtimestamp(t, tz))

    @classmethod
    def now(cls, tz=None):
        return cls.fromtimestamp(CLOCK.read(), tz)

    @classmethod
    def today(cls):
        return cls.fromtimestamp(CLOCK.read())

    @classmethod
    def utcnow(cls):
        return cls.fromtimestamp(CLOCK.read(), _dtmod.timezone.utc).replace(tzinfo=None)


class _DMeta(type(_dtmod.date)):
    def __instancecheck__(cls, obj):
        return isinstance(obj, real.date)

    def __subclasscheck__(cls, sub):
        return issubclass(sub, real.date)


class SimDate(real.date, metaclass=_DMeta):
    @classmethod
    def today(cls):
        return cls.fromtimestamp(CLOCK.read())


class SimLock:
    """A lock the scheduler knows: contention blocks the simulated task, not the process."""

    def __init__(self, reentrant=False):
        self._re = reentrant
        self._owner = None
        self._count = 0

    def _me(self):
        s = ACTIVE_SCHED[0]
        return ("t", s.cur) if s is not None else ("m", 0)

    def acquire(self, blocking=True, timeout=-1):
        me = self._me()
        while self._owner is not None and not (self._re and self._owner == me):
            if not blocking:
                return False
            s = ACTIVE_SCHED[0]
            if s is None:
                raise RuntimeError("simulated deadlock: lock held outside any task")
            if timeout is not None and timeout >= 0:
                s.yield_point("lock")
                CLOCK.advance(timeout)
                if self._owner is not None:
                    return False
                continue
            s.block(self)
        self._owner = me
        self._count += 1
        return True

    def release(self):
        if self._owner is None:
            raise RuntimeError("release unlocked lock")
        self._count -= 1
        if self._count == 0:
            self._owner = None
            s = ACTIVE_SCHED[0]
            if s is not None:
                s.unblock(self)

    def locked(self):
        return self._owner is not None

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()

    def _is_owned(self):
        return self._owner == self._me()


_installed = False


def install():
    global _installed
    if _installed:
        return
    _installed = True
    assert "Crypto" not in sys.modules and "pymt" not in sys.modules
    import uuid  # (uses os.urandom by attribute)

    # time-based identifiers: the portable code, with the simulated clock and one machine address
    uuid._generate_time_safe = uuid._UuidCreate = None
    uuid._node = 0x0242AC110002
    import tempfile

    os.urandom = RNG
    _randmod._urandom = RNG
    _timemod.time = CLOCK.read
    _timemod.time_ns = lambda: int(CLOCK.read() * 1e9)

    def mono():
        CLOCK.read()
        return CLOCK.mono

    _timemod.monotonic = mono
    _timemod.monotonic_ns = lambda: int(mono() * 1e9)
    _timemod.perf_counter = mono
    _timemod.perf_counter_ns = lambda: int(mono() * 1e9)
    _timemod.sleep = lambda d: CLOCK.advance(d)
    _timemod.localtime = lambda s=None: real.localtime(CLOCK.read() if s is None else s)
    _timemod.gmtime = lambda s=None: real.gmtime(CLOCK.read() if s is None else s)
    _timemod.ctime = lambda s=None: real.ctime(CLOCK.read() if s is None else s)
    _timemod.strftime = lambda f, t=None: real.strftime(
        f, real.localtime(CLOCK.read()) if t is None else t
    )
    _dtmod.datetime = SimDateTime
    _dtmod.date = SimDate

    class _Names:
        n = 0

        def __iter__(self):
            return self

        def __next__(self):
            _Names.n += 1
            return "sim%06d" % _Names.n

    tempfile._name_sequence = _Names()
    tempfile._get_candidate_names = lambda: tempfile._name_sequence
    global _NAMES
    _NAMES = _Names

    # 600 000 rounds of a pure function for every saved key: computed once per input
    import Crypto.IO._PBES as pbes

    pbes._DEFAULT_PBKDF2_COUNT = 1000  # new saves use fewer rounds; the number is stored with the key
    memo, kdf = {}, pbes.PBKDF2

    def pbkdf2(*a, hmac_hash_module=None, **k):
        mod = getattr(hmac_hash_module, "oid", None) or getattr(getattr(hmac_hash_module, "new", None), "__module__", None)
        try:
            key = (a, tuple(sorted(k.items())), mod, type(hmac_hash_module).__name__)
            if key in memo:
                return memo[key]
        except TypeError:  # not a plain call: nothing to remember it by
            key = None
        count = a[3] if len(a) > 3 else k.get("count")
        if isinstance(count, int) and count > 20000 and len(a) >= 3:
            # a damaged round count: any other key will do, as unpredictable as the real one
            return hashlib.shake_256(repr((a, sorted(k))).encode()).digest(a[2])
        v = kdf(*a, hmac_hash_module=hmac_hash_module, **k)
        if key is not None and mod is not None:
            if len(memo) > 5000:
                memo.clear()
            memo[key] = v
        return v

    pbes.PBKDF2 = pbkdf2

    import Crypto.Random  # noqa: F401
    import Crypto.PublicKey.RSA as rsa

    # the primality of an imported key's factors: likewise (its witnesses are drawn aside)
    primes, test = {}, rsa.test_probable_prime

    def test_probable_prime(n, *a, **k):
        if a or k:
            return test(n, *a, **k)
        key = int(n)
        if key not in primes:
            with RNG.aside():
                v = test(n)
            if len(primes) > 5000:
                primes.clear()
            primes[key] = v
        return primes[key]

    rsa.test_probable_prime = test_probable_prime
    import Crypto.PublicKey.ECC  # noqa: F401
    import Crypto.Cipher.AES  # noqa: F401
    import Crypto.Cipher.PKCS1_OAEP  # noqa: F401
    import Crypto.Signature.pkcs1_15  # noqa: F401
    import rlp  # noqa: F401


class _Loader(importlib.machinery.SourceFileLoader):
    cache = {}

    def get_code(self, fullname):
        path = self.get_filename(fullname)
        code = _Loader.cache.get(path)
        if code is None:
            with open(path, "rb") as f:
                code = compile(f.read(), path, "exec", dont_inherit=True)
            _Loader.cache[path] = code
        return code


class _Finder:
    @staticmethod
    def find_spec(name, path=None, target=None):
        if name != "pymt" and not name.startswith("pymt."):
            return None
        base = os.path.join(SRC, *name.split("."))
        if os.path.isfile(os.path.join(base, "__init__.py")):
            fn = os.path.join(base, "__init__.py")
            return importlib.util.spec_from_file_location(
                name, fn, loader=_Loader(name, fn), submodule_search_locations=[base]
            )
        if os.path.isfile(base + ".py"):
            return importlib.util.spec_from_file_location(
                name, base + ".py", loader=_Loader(name, base + ".py")
            )
        return None


class Addresses:
    """Stand-in for `id` in the code under test: an address is used again as soon as its object is gone."""

    def __init__(self):
        self.live, self.free, self.top = {}, [], 0

    def __call__(self, obj):
        rid = id(obj)
        got = self.live.get(rid)
        if got is not None and got[1]() is obj:
            return got[0]
        try:
            ref = weakref.ref(obj, lambda r: self.gone(rid, r))
        except TypeError:
            return rid
        if self.free:
            n = self.free.pop()
        else:
            self.top += 1
            n = 0x7F0000000000 + self.top * 64
        self.live[rid] = (n, ref)
        return n

    def gone(self, rid, ref):
        got = self.live.get(rid)
        if got is not None and got[1] is ref:
            del self.live[rid]
            self.free.append(got[0])


def load_pymt():
    """Import the code under test afresh: what starting a new process gives it."""
    for m in [m for m in sys.modules if m == "pymt" or m.startswith("pymt.")]:
        del sys.modules[m]
    if _Finder not in sys.meta_path:
        sys.meta_path.insert(0, _Finder)
    # locks created by the code under test are simulated ones
    _thmod.Lock, _thmod.RLock = (lambda: SimLock()), (lambda: SimLock(True))
    try:
        _randmod.seed(int.from_bytes(RNG(16), "big"))  # as a new interpreter would
        uuid = sys.modules.get("uuid")
        if uuid is not None:
            uuid._last_timestamp = None
        import pymt
        from pymt.mpt import MPT
        from pymt.empt import EMPT, SparseEMPT, RootEMPT, DataReference
        from pymt.mt import MerkleTree
        from pymt.merkletools import MerkleTools
        from pymt.proof import Proof
        from pymt.keypairs import RsaKeyPair, RsaAuthKeyPair, RsaEncKeyPair
        from pymt.utils.utils import Utils
    finally:
        # modules that did `import threading` keep the factory via this proxy only while pymt runs
        _thmod.Lock, _thmod.RLock = real.Lock, real.RLock
    address = Addresses()
    for name, mod in list(sys.modules.items()):
        if name == "pymt" or name.startswith("pymt."):
            mod.__dict__.setdefault("id", address)
        if name.startswith("pymt.") and getattr(mod, "threading", None) is _thmod:
            proxy = types.ModuleType("threading")
            proxy.__dict__.update(_thmod.__dict__)
            proxy.Lock, proxy.RLock = (lambda: SimLock()), (lambda: SimLock(True))
            mod.threading = proxy
    return types.SimpleNamespace(
        pymt=pymt, MPT=MPT, EMPT=EMPT, SparseEMPT=SparseEMPT, RootEMPT=RootEMPT,
        DataReference=DataReference, MerkleTree=MerkleTree, MerkleTools=MerkleTools,
        Proof=Proof, RsaKeyPair=RsaKeyPair, RsaAuthKeyPair=RsaAuthKeyPair,
        RsaEncKeyPair=RsaEncKeyPair, Utils=Utils,
    )
