"""SimFS: an in-memory file system under /simdisk with faults, process crashes and power loss.

Every file function of the standard library that reaches it (open, os.open, os.replace, os.fsync,
tempfile, pathlib, shutil, ...) is routed here by path or by descriptor; other paths are untouched.

Durability: writes and truncations of a file become durable when it is fsynced, changes of names when
the directory is fsynced or later changes are (metadata is journaled in order).  A process crash
keeps everything written; a power loss keeps an ordered prefix of the pending metadata and any
subset of the unsynced writes, the last one possibly torn.
"""
import builtins
import errno
import io
import os
import stat as _stat

from .kernel import ERRS, SimCrash
from .seams import CLOCK

ROOT = "/simdisk"
CUR = [None]  # the file system of the current run
FD0 = 1 << 24
_real = {}


def _err(e, path=None):
    return OSError(e, os.strerror(e), path) if path is not None else OSError(e, os.strerror(e))


def resolve(kind, path, follow=True, depth=40):
    """The name that path leads to, with links followed (in its last part only if `follow`).

    kind(name) is None, "d", "f", or "l" + target of a symbolic link; the last part need not be there.
    """
    cur = ""
    parts = [x for x in path.split("/") if x not in ("", ".")]
    if path.endswith(("/", "/.")):
        parts.append(".")
    for i, x in enumerate(parts):
        if cur and kind(cur) != "d":
            e = errno.ENOTDIR if kind(cur) else errno.ENOENT
            raise OSError(e, os.strerror(e), path)
        if x == ".":
            continue
        if x == "..":
            cur = os.path.dirname(cur).rstrip("/")
            continue
        nxt = cur + "/" + x
        last = i == len(parts) - 1
        k = kind(nxt)
        if k and k[0] == "l" and (follow or not last):
            if depth == 0:
                raise OSError(errno.ELOOP, os.strerror(errno.ELOOP), path)
            to = k[1:] if k[1:].startswith("/") else cur + "/" + k[1:]
            try:
                nxt = resolve(kind, to, True, depth - 1)
            except RecursionError:
                raise OSError(errno.ELOOP, os.strerror(errno.ELOOP), path)
        cur = nxt
    return cur or "/"


class Inode:
    def __init__(self, n, mode, isdir=False, target=None):
        self.n, self.mode, self.isdir, self.target = n, mode, isdir, target
        self.mtime = CLOCK.now
        self.data = bytearray()
        self.disk = b""  # what surely survives
        self.pend = []  # unsynced ("w", off, bytes) / ("t", size)


class Desc:
    def __init__(self, ino, path, rd, wr, app):
        self.ino, self.path, self.rd, self.wr, self.app = ino, path, rd, wr, app
        self.pos = 0
        self.gen = 0


class SimFS:
    def __init__(self, sim, capacity=None):
        self.sim = sim
        self.nextino = 1
        self.root = Inode(0, 0o755, True)
        self.names = {ROOT: self.root}
        self.dnames = {ROOT: self.root}  # durable names
        self.journal = []  # pending metadata: atomic groups of (path, inode or None)
        self.fds = {}
        self.nextfd = FD0
        self.armed = None
        self.fired = 0
        self.dead = False
        self.capacity = capacity
        self.gen = 0  # process generation
        self.ops = 0
        self.writes = 0
        self.quiet = False
        self.strict = False  # whether modes keep the code under test from reading
        self.cwd = None  # the simulated working directory; None: the real one
        sim.fs = self
        CUR[0] = self

    # ------------------------------------------------------------- faults
    def arm(self, f):
        self.armed = dict(f) if f else None

    def disarm(self):
        self.armed = None

    def _raise(self, op, when):
        e = self.armed.get("e", "io")
        self.fired += 1
        self.sim.fault("fs-%s-%s-%s" % (op, when, e))
        if e == "crash":
            self.dead = True
            raise SimCrash()
        if e == "nospc":
            raise _err(errno.ENOSPC)
        if e == "io":
            raise _err(errno.EIO)
        if e == "perm":
            raise _err(errno.EACCES)
        if e == "mfile":
            raise _err(errno.EMFILE)
        raise ERRS[e]()

    def access(self, op):
        """Called before every operation; returns whether it shall fail halfway."""
        if self.quiet:
            return None
        if self.dead:
            raise SimCrash()
        self.sim.yield_point("f")
        self.ops += 1
        a = self.armed
        if a is None or not (a.get("on", "any") in ("any", op) or (a.get("on") == "meta" and op in ("rename", "unlink", "create", "chmod"))):
            return None
        a["n"] -= 1
        left = a.get("len", 1)
        if a["n"] >= 0 or a["n"] < -left:
            return None
        k = a.get("k", "before")
        if k == "before":
            self._raise(op, "before")
        return k  # "after" or "partial"

    def done(self, op, k):
        if k == "after" or (k == "partial" and op != "write"):
            self._raise(op, "after")
        if not self.quiet:
            self.sim.yield_point("f")

    # ------------------------------------------------------------- names
    def norm(self, path, dir_fd=None):
        p = os.fspath(path)
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        if self.cwd is not None and not p.startswith("/"):
            p = os.path.join(self.cwd, p)
        return os.path.normpath(p)

    def kind(self, p):
        ino = self.names.get(p)
        return None if ino is None else "d" if ino.isdir else "f" if ino.target is None else "l" + ino.target

    def find(self, path, follow=True):
        """The name that path leads to on this disk."""
        p = os.fspath(path)
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        if "\0" in p:
            raise ValueError("embedded null byte")
        if any(len(os.fsencode(x)) > 255 for x in p.split("/")):
            raise OSError(errno.ENAMETOOLONG, os.strerror(errno.ENAMETOOLONG), path)
        if self.cwd is not None and not p.startswith("/"):
            p = self.cwd + "/" + p
        try:
            return resolve(self.kind, p, follow)
        except OSError as e:
            raise OSError(e.errno, e.strerror, path)

    def there(self, path):
        try:
            return self.find(path) in self.names
        except OSError:
            return False

    def lookup(self, path, follow=True):
        p = self.find(path, follow)
        if p not in self.names:
            raise FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT), path)
        return self.names[p]

    def parent(self, p, path):
        par = os.path.dirname(p)
        if par not in self.names or not self.names[par].isdir:
            raise FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT), path)

    def setname(self, p, ino):
        if ino is None:
            self.names.pop(p, None)
        else:
            self.names[p] = ino
        self.touched(p)
        self.journal.append(((p, ino),))

    def touched(self, p):
        d = self.names.get(os.path.dirname(p))
        if d is not None:
            d.mtime = CLOCK.now

    # ------------------------------------------------------------- syscalls
    def open(self, path, flags, mode=0o777):
        excl = flags & os.O_CREAT and flags & os.O_EXCL
        p = self.find(path, not (excl or flags & os.O_NOFOLLOW))
        if flags & getattr(os, "O_TMPFILE", 0) == getattr(os, "O_TMPFILE", -1):
            raise _err(errno.EOPNOTSUPP, path)
        new = p not in self.names
        wr = flags & (os.O_WRONLY | os.O_RDWR)
        k = self.access("create" if new and flags & os.O_CREAT else "open")
        ino = self.names.get(p)
        if ino is None:
            if not flags & os.O_CREAT:
                raise FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT), path)
            self.parent(p, path)
            ino = Inode(self.nextino, mode & ~0o022 & 0o7777)
            self.nextino += 1
            self.setname(p, ino)
        else:
            if excl:
                raise FileExistsError(errno.EEXIST, os.strerror(errno.EEXIST), path)
            if ino.target is not None:
                raise _err(errno.ELOOP, path)
            if flags & os.O_DIRECTORY and not ino.isdir:
                raise _err(errno.ENOTDIR, path)
            if not wr:
                self.readable(ino, path)
            if ino.isdir and wr:
                raise IsADirectoryError(errno.EISDIR, os.strerror(errno.EISDIR), path)
            if flags & os.O_TRUNC and wr:
                ino.data = bytearray()
                ino.pend.append(("t", 0))
                ino.mtime = CLOCK.now
        fd = self.nextfd
        self.nextfd += 1
        d = Desc(ino, p, not flags & os.O_WRONLY, bool(wr), bool(flags & os.O_APPEND))
        d.gen = self.gen
        self.fds[fd] = d
        try:
            self.done("open", k)
        except BaseException:
            self.fds.pop(fd, None)
            raise
        return fd

    def desc(self, fd):
        d = self.fds.get(fd)
        if d is None or d.gen != self.gen:
            raise _err(errno.EBADF)
        return d

    def close(self, fd):
        d = self.fds.pop(fd, None)
        if d is None:
            raise _err(errno.EBADF)
        if d.gen != self.gen or self.dead:
            return
        k = self.access("close") if d.wr else None
        self.done("close", k)

    def used(self):
        seen = {id(i): len(i.data) for i in self.names.values()}
        return sum(seen.values())

    def write(self, fd, data):
        d = self.fds.get(fd)
        if d is None or d.gen != self.gen:
            return len(data)  # a dead process's buffers go nowhere
        if self.dead:
            raise SimCrash()
        if not d.wr:
            raise _err(errno.EBADF)
        data = bytes(data)
        k = self.access("write")
        part = data
        if k == "partial":
            part = data[: self.armed.get("c", 7) % (len(data) + 1)]
        if self.capacity is not None and part:
            room = self.capacity - self.used()
            if room <= 0:
                self.fired += 1
                self.sim.fault("fs-disk-full")
                raise _err(errno.ENOSPC)
            part = part[: max(1, room)]
        if d.app:
            d.pos = len(d.ino.data)
        if part:
            end = d.pos + len(part)
            if len(d.ino.data) < d.pos:
                d.ino.data += bytes(d.pos - len(d.ino.data))
            d.ino.data[d.pos: end] = part
            d.ino.pend.append(("w", d.pos, part))
            d.pos = end
            d.ino.mtime = CLOCK.now
            self.writes += 1
        if k == "partial" and self.armed.get("e") not in (None, "short"):
            self._raise("write", "partial")
        if k == "partial":
            self.fired += 1
            self.sim.fault("fs-write-short")
            if not part:
                raise _err(errno.EIO)
        self.done("write", k if k == "after" else None)
        return len(part)

    def read(self, fd, n):
        d = self.desc(fd)
        k = self.access("read")
        if d.ino.isdir:
            raise _err(errno.EISDIR)
        out = bytes(d.ino.data[d.pos: d.pos + n]) if n >= 0 else bytes(d.ino.data[d.pos:])
        if k == "partial" and len(out) > 1:
            out = out[: len(out) // 2]  # a short read
            k = None
        d.pos += len(out)
        self.done("read", k)
        return out

    def seek(self, fd, off, whence):
        d = self.desc(fd)
        d.pos = off if whence == 0 else d.pos + off if whence == 1 else len(d.ino.data) + off
        return d.pos

    def truncate(self, fd, n):
        d = self.desc(fd)
        k = self.access("write")
        d.ino.data = bytearray(bytes(d.ino.data[:n]).ljust(n, b"\0"))
        d.ino.mtime = CLOCK.now
        d.ino.pend.append(("t", n))
        self.done("truncate", k)

    def fsync(self, fd):
        d = self.desc(fd)
        k = self.access("fsync")
        if d.ino.isdir:
            # the journal is kept in order: up to the last change in this directory
            here = [i for i, c in enumerate(self.journal) if any(self.dnames.get(os.path.dirname(p)) is d.ino or
                                                                 self.names.get(os.path.dirname(p)) is d.ino for p, _ in c)]
            self.commit(here[-1] + 1 if here else 0)
        else:
            d.ino.disk = bytes(d.ino.data)
            d.ino.pend = []
        self.done("fsync", k)

    def commit(self, n):
        """The first n pending changes of names become durable."""
        for change in self.journal[:n]:
            for p, ino in change:
                if ino is None:
                    self.dnames.pop(p, None)
                else:
                    self.dnames[p] = ino
        del self.journal[:n]

    def stat(self, path, follow=True):
        if isinstance(path, int):
            ino = self.desc(path).ino
        else:
            k = self.access("stat")
            ino = self.lookup(path, follow)
            self.done("stat", k)
        mode = (_stat.S_IFDIR if ino.isdir else _stat.S_IFREG if ino.target is None else _stat.S_IFLNK) | ino.mode
        t = int(ino.mtime)
        size = len(ino.data) if ino.target is None else len(ino.target)
        return os.stat_result((mode, ino.n, 99, sum(1 for i in self.names.values() if i is ino), 0, 0, size, t, t, t) +
                              (ino.mtime,) * 3 + (int(ino.mtime * 1e9),) * 3)

    def rename(self, a, b):
        pa, pb = self.find(a, False), self.find(b, False)
        k = self.access("rename")
        ino = self.lookup(a, False)
        self.parent(pb, b)
        if pb in self.names and self.names[pb].isdir and not ino.isdir:
            raise IsADirectoryError(errno.EISDIR, os.strerror(errno.EISDIR), b)
        if pb in self.names and ino.isdir and not self.names[pb].isdir:
            raise _err(errno.ENOTDIR, b)
        if pb.startswith(pa + "/") or pa == ROOT:
            raise _err(errno.EINVAL, b)
        if pb in self.names and pb != pa and any(x.startswith(pb + "/") for x in self.names):
            raise _err(errno.ENOTEMPTY, b)
        if pa != pb and self.names.get(pb) is not ino:
            # one atomic journal entry: all names change together
            below = [x for x in self.names if x.startswith(pa + "/")] if ino.isdir else []
            change = [(x, None) for x in below] + [(pa, None), (pb, ino)] + [(pb + x[len(pa):], self.names[x]) for x in below]
            for p, i in change:
                if i is None:
                    self.names.pop(p, None)
                else:
                    self.names[p] = i
            self.touched(pa)
            self.touched(pb)
            self.journal.append(tuple(change))
        self.done("rename", k)

    def link(self, a, b):
        pb = self.find(b, False)
        k = self.access("create")
        ino = self.lookup(a, False)
        self.parent(pb, b)
        if pb in self.names:
            raise FileExistsError(errno.EEXIST, os.strerror(errno.EEXIST), b)
        if ino.isdir:
            raise _err(errno.EPERM, a)
        self.setname(pb, ino)
        self.done("create", k)

    def symlink(self, target, path):
        p = self.find(path, False)
        k = self.access("create")
        if p in self.names:
            raise FileExistsError(errno.EEXIST, os.strerror(errno.EEXIST), path)
        self.parent(p, path)
        self.setname(p, Inode(self.nextino, 0o777, target=os.fspath(target)))
        self.nextino += 1
        self.done("create", k)

    def readlink(self, path):
        k = self.access("stat")
        ino = self.lookup(path, False)
        self.done("stat", k)
        if ino.target is None:
            raise _err(errno.EINVAL, path)
        return ino.target

    def unlink(self, path):
        k = self.access("unlink")
        ino = self.lookup(path, False)
        if ino.isdir:
            raise IsADirectoryError(errno.EISDIR, os.strerror(errno.EISDIR), path)
        self.setname(self.find(path, False), None)
        self.done("unlink", k)

    def mkdir(self, path, mode=0o777):
        p = self.find(path, False)
        k = self.access("create")
        if p in self.names:
            raise FileExistsError(errno.EEXIST, os.strerror(errno.EEXIST), path)
        self.parent(p, path)
        ino = Inode(self.nextino, mode & ~0o022, True)
        self.nextino += 1
        self.setname(p, ino)
        self.done("create", k)

    def rmdir(self, path):
        p = self.find(path, False)
        ino = self.lookup(path, False)
        if not ino.isdir:
            raise NotADirectoryError(errno.ENOTDIR, os.strerror(errno.ENOTDIR), path)
        if any(os.path.dirname(x) == p for x in self.names):
            raise _err(errno.ENOTEMPTY, path)
        self.setname(p, None)

    def readable(self, ino, path):
        if self.strict and not self.quiet and not ino.mode & 0o400:
            raise _err(errno.EACCES, path)

    def listdir(self, path):
        p = self.find(path)
        self.access("stat")
        self.readable(self.lookup(path), path)
        if not self.lookup(path).isdir:
            raise NotADirectoryError(errno.ENOTDIR, os.strerror(errno.ENOTDIR), path)
        return sorted(os.path.basename(x) for x in self.names if os.path.dirname(x) == p and x != p)

    def chmod(self, path, mode):
        k = self.access("chmod")
        ino = self.desc(path).ino if isinstance(path, int) else self.lookup(path)
        ino.mode = mode & 0o7777
        self.done("chmod", k)

    # ------------------------------------------------------------- crashes
    def process_crash(self):
        """The process dies; the machine keeps running."""
        self.dead = False
        self.armed = None
        self.gen += 1
        self.fds = {}

    def power_loss(self, meta, keep, tear):
        """The machine dies: `meta` of the pending name changes survive, and the unsynced writes chosen by `keep(i)`."""
        self.commit(min(meta, len(self.journal)))
        self.journal = []
        self.names = dict(self.dnames)
        i = 0
        lost = 0
        seen = []
        for ino in list(self.names.values()):
            if any(x is ino for x in seen) or ino.isdir or ino.target is not None:
                continue
            seen.append(ino)
            d = bytearray(ino.disk)
            for op in ino.pend:
                if keep(i):
                    if op[0] == "t":
                        d = bytearray(bytes(d[: op[1]]).ljust(op[1], b"\0"))
                    else:
                        w = op[2]
                        if tear and i == tear[0]:
                            w = w[: tear[1] % (len(w) + 1)]
                        if len(d) < op[1]:
                            d += bytes(op[1] - len(d))
                        d[op[1]: op[1] + len(w)] = w
                else:
                    lost += 1
                i += 1
            ino.data, ino.disk, ino.pend = d, bytes(d), []
        self.process_crash()
        return lost

    def sync_all(self):
        self.commit(len(self.journal))
        for ino in self.names.values():
            ino.disk, ino.pend = bytes(ino.data), []

    # ------------------------------------------------------------- for the checks
    def peek(self, path):
        try:
            ino = self.names.get(self.find(path))
        except OSError:
            return None
        return None if ino is None or ino.isdir else bytes(ino.data)

    def poke(self, path, data):
        """Change stored bytes behind the program's back."""
        p = self.norm(path)
        ino = self.names.get(p)
        if ino is None:
            ino = self.names[p] = self.dnames[p] = Inode(self.nextino, 0o644)
            self.nextino += 1
        ino.data, ino.disk, ino.pend = bytearray(data), bytes(data), []

    def drop(self, path):
        self.names.pop(self.norm(path), None)
        self.dnames.pop(self.norm(path), None)

    def files(self):
        return sorted(p for p, i in self.names.items() if not i.isdir)


class SimRaw(io.RawIOBase):
    def __init__(self, fs, fd, name, mode, closefd=True):
        self._fs, self._fd, self.name, self._mode, self._closefd = fs, fd, name, mode, closefd
        d = fs.fds[fd]
        self._rd, self._wr = d.rd, d.wr

    @property
    def mode(self):
        return self._mode

    def fileno(self):
        if self.closed:
            raise ValueError("I/O operation on closed file")
        return self._fd

    def readable(self):
        return self._rd

    def writable(self):
        return self._wr

    def seekable(self):
        return True

    def isatty(self):
        return False

    def readinto(self, b):
        data = self._fs.read(self._fd, len(b))
        b[: len(data)] = data
        return len(data)

    def write(self, b):
        return self._fs.write(self._fd, b)

    def seek(self, off, whence=0):
        return self._fs.seek(self._fd, off, whence)

    def tell(self):
        return self._fs.desc(self._fd).pos

    def truncate(self, n=None):
        n = self.tell() if n is None else n
        self._fs.truncate(self._fd, n)
        return n

    def close(self):
        if self.closed:
            return
        try:
            super().close()
        finally:
            if self._closefd and self._fd in self._fs.fds:
                self._fs.close(self._fd)


class Entry:
    def __init__(self, path, name):
        self.name, self.path = name, os.path.join(path, name)

    def __fspath__(self):
        return self.path

    def stat(self, *, follow_symlinks=True):
        return os.stat(self.path) if follow_symlinks else os.lstat(self.path)

    def _is(self, kind, follow):
        try:
            return kind(self.stat(follow_symlinks=follow).st_mode)
        except FileNotFoundError:
            return False

    def is_file(self, *, follow_symlinks=True):
        return self._is(_stat.S_ISREG, follow_symlinks)

    def is_dir(self, *, follow_symlinks=True):
        return self._is(_stat.S_ISDIR, follow_symlinks)

    def is_symlink(self):
        return self._is(_stat.S_ISLNK, False)

    def inode(self):
        return self.stat(follow_symlinks=False).st_ino


class Entries:
    """What os.scandir gives."""

    def __init__(self, path):
        self.it = iter([Entry(path, x) for x in CUR[0].listdir(path)])

    def __iter__(self):
        return self

    def __next__(self):
        return next(self.it)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def close(self):
        self.it = iter(())


def _mine(path):
    if CUR[0] is None:
        return False
    if isinstance(path, bool):
        return False
    if isinstance(path, int):
        return path >= FD0
    try:
        p = os.fspath(path)
    except TypeError:
        return False
    if isinstance(p, bytes):
        p = os.fsdecode(p)
    if CUR[0].cwd is not None and not p.startswith("/"):
        return True
    return p == ROOT or p.startswith(ROOT + "/")


def _open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    mine = _mine(file)
    if not mine:
        return _real["io.open"](file, mode, buffering, encoding, errors, newline, closefd, opener)
    fs = CUR[0]
    m = set(mode) - set("bt")
    if not m <= set("rwax+") or len(m & set("rwax")) != 1 or ("b" in mode and "t" in mode):
        raise ValueError("invalid mode: %r" % mode)
    if isinstance(file, int):
        fd = file
        fs.desc(fd)
    else:
        if "r" in m:
            fl = os.O_RDWR if "+" in m else os.O_RDONLY
        else:
            fl = (os.O_RDWR if "+" in m else os.O_WRONLY) | os.O_CREAT
            fl |= os.O_TRUNC if "w" in m else os.O_EXCL if "x" in m else os.O_APPEND
        fd = opener(file, fl) if opener is not None else fs.open(file, fl, 0o666)
    if not isinstance(fd, int) or fd < FD0:
        return _real["io.open"](fd, mode, buffering, encoding, errors, newline, closefd)
    if fs.fds[fd].ino.isdir:
        fs.fds.pop(fd)
        raise IsADirectoryError(errno.EISDIR, os.strerror(errno.EISDIR), file)
    raw = SimRaw(fs, fd, file, mode.replace("t", ""), closefd)
    if buffering == 0:
        if "b" not in mode:
            raise ValueError("can't have unbuffered text I/O")
        return raw
    size = buffering if buffering > 1 else io.DEFAULT_BUFFER_SIZE
    if raw.readable() and raw.writable():
        buf = io.BufferedRandom(raw, size)
    elif raw.writable():
        buf = io.BufferedWriter(raw, size)
    else:
        buf = io.BufferedReader(raw, size)
    if "b" in mode:
        return buf
    text = io.TextIOWrapper(buf, encoding or "utf-8", errors, newline, line_buffering=buffering == 1)
    text.mode = mode
    return text


def install():
    if _real:
        return
    _real["io.open"] = io.open
    builtins.open = io.open = _open

    def route(name, fn, nargs=1):
        r = getattr(os, name)
        _real[name] = r

        def f(path, *a, **k):
            if _mine(path):
                return fn(CUR[0], path, *a, **k)
            return r(path, *a, **k)

        f.__name__ = name
        setattr(os, name, f)

    route("open", lambda fs, p, flags, mode=0o777, *, dir_fd=None: fs.open(p, flags, mode))
    route("close", lambda fs, fd: fs.close(fd))
    route("write", lambda fs, fd, b: fs.write(fd, b))
    route("read", lambda fs, fd, n: fs.read(fd, n))
    route("lseek", lambda fs, fd, o, w: fs.seek(fd, o, w))
    route("ftruncate", lambda fs, fd, n: fs.truncate(fd, n))
    route("fsync", lambda fs, fd: fs.fsync(fd))
    route("fdatasync", lambda fs, fd: fs.fsync(fd))
    route("fstat", lambda fs, fd: fs.stat(fd))
    route("stat", lambda fs, p, *, dir_fd=None, follow_symlinks=True: fs.stat(p, follow_symlinks))
    route("lstat", lambda fs, p, *, dir_fd=None: fs.stat(p, False))
    route("replace", lambda fs, a, b, **k: fs.rename(a, b))
    route("rename", lambda fs, a, b, **k: fs.rename(a, b))
    route("link", lambda fs, a, b, **k: fs.link(a, b))
    route("unlink", lambda fs, p, *, dir_fd=None: fs.unlink(p))
    route("remove", lambda fs, p, *, dir_fd=None: fs.unlink(p))
    route("mkdir", lambda fs, p, mode=0o777, *, dir_fd=None: fs.mkdir(p, mode))
    route("rmdir", lambda fs, p, *, dir_fd=None: fs.rmdir(p))
    route("chmod", lambda fs, p, mode, **k: fs.chmod(p, mode))
    route("fchmod", lambda fs, p, mode: fs.chmod(p, mode))
    route("chown", lambda fs, p, *a, **k: fs.stat(p) and None)
    route("fchown", lambda fs, p, *a: None)
    route("utime", lambda fs, p, *a, **k: fs.stat(p) and None)
    route("access", lambda fs, p, mode, **k: fs.there(p) and not (
        fs.strict and mode & os.R_OK and not fs.lookup(p).mode & 0o400))
    route("isatty", lambda fs, fd: False)
    route("listxattr", lambda fs, p=None, **k: [])

    route("readlink", lambda fs, p, *, dir_fd=None: fs.readlink(p))
    sl = os.symlink
    _real["symlink"] = sl
    os.symlink = lambda a, b, *x, **k: CUR[0].symlink(a, b) if _mine(b) else sl(a, b, *x, **k)

    def truncate(fs, p, n):
        fd = fs.open(p, os.O_WRONLY)
        try:
            fs.truncate(fd, n)
        finally:
            fs.close(fd)

    route("truncate", truncate)
    gc = os.getcwd
    _real["getcwd"] = gc

    def getcwd():
        fs = CUR[0]
        if fs is None or fs.cwd is None:
            return gc()
        k = fs.access("getcwd")
        if not fs.names.get(fs.cwd) or not fs.names[fs.cwd].isdir:
            raise FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT))
        fs.done("getcwd", k)
        return fs.cwd

    os.getcwd = getcwd
    cd = os.chdir
    _real["chdir"] = cd

    def chdir(path):
        fs = CUR[0]
        if not _mine(path) or isinstance(path, int):
            cd(path)
            if fs is not None:
                fs.cwd = None
            return
        k = fs.access("chdir")
        p = fs.find(path)
        if p not in fs.names:
            raise FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT), path)
        if not fs.names[p].isdir:
            raise NotADirectoryError(errno.ENOTDIR, os.strerror(errno.ENOTDIR), path)
        fs.done("chdir", k)
        fs.cwd = p

    os.chdir = chdir
    os.getcwdb = lambda: os.fsencode(os.getcwd())
    rl = os.listdir
    _real["listdir"] = rl
    os.listdir = lambda path=".": CUR[0].listdir(path) if _mine(path) else rl(path)
    rsd = os.scandir
    _real["scandir"] = rsd
    os.scandir = lambda path=".": Entries(os.fspath(path)) if _mine(path) else rsd(path)
    rs = os.sync
    os.sync = lambda: CUR[0].sync_all() if CUR[0] is not None else rs()
    # sets of functions the library asks about
    for s in (os.supports_dir_fd, os.supports_follow_symlinks, os.supports_fd, os.supports_effective_ids):
        for name, r in list(_real.items()):
            if r in s and name != "io.open":
                s.add(getattr(os, name))
    try:
        import fcntl

        for name in ("flock", "lockf", "fcntl"):
            r = getattr(fcntl, name)

            def g(fd, *a, _r=r, **k):
                n = fd if isinstance(fd, int) else fd.fileno()
                if n >= FD0:
                    return 0
                return _r(fd, *a, **k)

            setattr(fcntl, name, g)
    except ImportError:
        pass
    import shutil

    shutil._USE_CP_SENDFILE = False
