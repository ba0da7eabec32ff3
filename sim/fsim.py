"""Simulated storage: every byte the library (or a package it calls) moves to or
from files below the simulated roots passes a scripted raw layer.

`builtins.open`, `io.open`, `os.open/read/write/close`, `os.listdir/scandir`,
`os.replace/rename/remove` are wrapped once, before anything else is imported;
with no script active they are pass-throughs.  Active, a file is a real
`io.FileIO` (subclassed) under the real buffered and text layers, and each raw
event consults the script:

  fault = {"on": "open"|"read"|"write"|"close"|"list"|"meta", "n": k, "kind": K, "frac": f}

raised at the k-th such event of the current operation.  Kinds:
  EIO EACCES EMFILE ENOSPC EROFS   the call fails, nothing transferred
  torn                              part of the buffer transferred, then ENOSPC from the next write on
  crash                             part of the buffer transferred, then the process is gone
  short                             part of the buffer transferred, no error   (benign)
  shuffle                           directory listed in another order          (benign)
"""
import builtins
import errno
import io
import os
import random

HARD = ("EIO", "EACCES", "EMFILE", "ENOSPC", "EROFS", "torn", "crash")
SOFT = ("short", "shuffle")

_open = io.open
_os = {n: getattr(os, n) for n in ("open", "read", "write", "close", "listdir", "scandir", "replace",
                                   "rename", "remove", "unlink", "fsync", "stat")}


class State:
    def __init__(self):
        self.roots = []
        self.active = False
        self.faults = []
        self.counts = {}
        self.named = {}
        self.full = set()
        self.fired = []
        self.log = []
        self.bufsize = 0
        self.fds = {}
        self.on_crash = None
        self.rng = random.Random(0)


S = State()


def configure(roots, bufsize=0):
    S.roots = [os.path.realpath(r) for r in roots]
    S.bufsize = bufsize
    S.active = True


def begin(faults=(), seed=0):
    """Start an operation: reset the event counters, arm the faults."""
    S.faults = [dict(f) for f in faults]
    S.counts = {}
    S.named = {}
    S.full = set()
    S.fired = []
    S.rng = random.Random(seed)


def end():
    S.faults = []
    return list(S.fired), dict(S.counts)


def _name(p):
    try:
        p = os.fspath(p)
    except TypeError:
        return None
    if isinstance(p, bytes):
        p = os.fsdecode(p)
    return p


def ours(p):
    if not S.active:
        return False
    p = _name(p)
    if p is None:
        return False
    if p.endswith((".py", ".pyc")):
        return False
    p = os.path.realpath(p)
    return any(p == r or p.startswith(r + os.sep) for r in S.roots)


def event(cls, what=""):
    """Count an event; return the fault to apply, if any."""
    n = S.counts.get(cls, 0)
    S.counts[cls] = n + 1
    k = S.named.get((cls, what), 0)
    S.named[(cls, what)] = k + 1
    if cls == "write" and what in S.full:
        return {"kind": "ENOSPC"}
    for f in S.faults:
        if f["on"] == cls and f["n"] == n:
            S.faults.remove(f)
            if f["kind"] == "torn" or f["kind"] == "ENOSPC" and f.get("seed", 0) % 2:
                S.full.add(what)                          # stays full for this operation
            S.fired.append([cls, n, f["kind"], os.path.basename(what), k, S.counts.get("write", 0)])
            return f
    return None


def fail(f, path=None):
    code = getattr(errno, f["kind"], errno.EIO)
    raise OSError(code, os.strerror(code), path)


def crash():
    if S.on_crash is not None:
        S.on_crash()
    os._exit(0)


def _part(f, n):
    return max(0, min(n, int(n * f.get("frac", 0.5))))


class SimRaw(io.FileIO):
    def __init__(self, file, mode, closefd=True, opener=None):
        self._simname = _name(file) if not isinstance(file, int) else S.fds.get(file, "")
        self._wrote = False
        if not isinstance(file, int):
            f = event("open", self._simname)
            if f:
                if f["kind"] == "crash":
                    crash()
                fail(f, self._simname)
        super().__init__(file, mode, closefd, opener)

    def write(self, b):
        self._wrote = True
        b = memoryview(b).cast("B")
        f = event("write", self._simname)
        if f is None:
            return super().write(b)
        k = _part(f, len(b))
        if f["kind"] in ("short", "torn", "crash"):
            k = k if f["kind"] == "crash" else max(k, 1)
            done = super().write(b[:k]) if k else 0
            if f["kind"] != "crash":
                return done
            if f["kind"] == "crash":
                crash()
        fail(f)

    def readinto(self, b):
        f = event("read", self._simname)
        if f is None:
            return super().readinto(b)
        if f["kind"] == "short":
            got = super().readinto(b) or 0
            keep = max(1, _part(f, got)) if got else 0     # the rest comes with the next read
            if keep < got:
                self.seek(keep - got, 1)
            return keep
        fail(f)

    def read(self, n=-1):
        if n is None or n < 0:
            return self.readall()
        b = bytearray(n)
        k = self.readinto(b)
        return bytes(b[:k])

    def readall(self):
        out = bytearray()
        while True:
            b = bytearray(S.bufsize or 65536)
            k = self.readinto(b)
            if not k:
                return bytes(out)
            out += b[:k]

    def close(self):
        if not self.closed and self._wrote:
            f = event("close", self._simname)
            if f is not None:
                if f["kind"] == "crash":
                    crash()
                super().close()
                fail(f)
        super().close()


def sim_open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None,
             closefd=True, opener=None):
    if not S.active or not (S.fds.get(file) if isinstance(file, int) else ours(file)):
        return _open(file, mode, buffering, encoding, errors, newline, closefd, opener)
    if not isinstance(mode, str):
        raise TypeError(f"invalid mode: {mode!r}")
    binary = "b" in mode
    raw = mode.replace("b", "").replace("t", "")
    if binary and (encoding is not None or errors is not None or newline is not None) or \
            not set(mode) <= set("axrwb+t") or len(mode) > len(set(mode)) or \
            sum(c in mode for c in "rwax") != 1 or (binary and "t" in mode):
        return _open(file, mode, buffering, encoding, errors, newline, closefd, opener)  # raises
    r = SimRaw(file, raw, closefd, opener)
    try:
        if buffering == 0:
            if not binary:
                raise ValueError("can't have unbuffered text I/O")
            return r
        size = S.bufsize or (buffering if buffering > 1 else io.DEFAULT_BUFFER_SIZE)
        if "+" in raw:
            b = io.BufferedRandom(r, size)
        elif raw[0] in "wax":
            b = io.BufferedWriter(r, size)
        else:
            b = io.BufferedReader(r, size)
        if binary:
            return b
        t = io.TextIOWrapper(b, io.text_encoding(encoding), errors, newline, buffering == 1)
        if S.bufsize:
            t._CHUNK_SIZE = S.bufsize
        t.mode = mode
        return t
    except BaseException:
        r.close()
        raise


def _os_open(path, flags, mode=0o777, *, dir_fd=None):
    if not ours(path):
        return _os["open"](path, flags, mode, dir_fd=dir_fd)
    f = event("open", _name(path))
    if f:
        if f["kind"] == "crash":
            crash()
        fail(f, _name(path))
    fd = _os["open"](path, flags, mode, dir_fd=dir_fd)
    S.fds[fd] = _name(path)
    return fd


def _os_close(fd):
    S.fds.pop(fd, None)
    return _os["close"](fd)


def _os_write(fd, b):
    if fd not in S.fds:
        return _os["write"](fd, b)
    f = event("write", S.fds[fd])
    if f is None:
        return _os["write"](fd, b)
    b = memoryview(b).cast("B")
    k = _part(f, len(b))
    if f["kind"] in ("short", "torn", "crash"):
        k = k if f["kind"] == "crash" else max(k, 1)
        done = _os["write"](fd, b[:k]) if k else 0
        if f["kind"] != "crash":
            return done
        if f["kind"] == "crash":
            crash()
    fail(f)


def _os_read(fd, n):
    if fd not in S.fds:
        return _os["read"](fd, n)
    f = event("read", S.fds[fd])
    if f is None:
        return _os["read"](fd, n)
    if f["kind"] == "short":
        b = _os["read"](fd, n)
        keep = max(1, _part(f, len(b))) if b else 0
        if keep < len(b):
            os.lseek(fd, keep - len(b), 1)
        return b[:keep]
    fail(f)


def _listing(f, path, items):
    if f is not None:
        if f["kind"] != "shuffle":
            fail(f, path)
        random.Random(f.get("seed", 1)).shuffle(items)
    return items


def _listdir(path="."):
    if not ours(path):
        return _os["listdir"](path)
    f = event("list", _name(path))
    return _listing(f, _name(path), sorted(_os["listdir"](path)))


class _Scan:
    def __init__(self, items):
        self.it = iter(items)

    def __iter__(self):
        return self

    def __next__(self):
        return next(self.it)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return None

    def close(self):
        pass


def _scandir(path="."):
    if isinstance(path, int) or not ours(path):
        return _os["scandir"](path)
    f = event("list", _name(path))
    with _os["scandir"](path) as it:
        items = sorted(it, key=lambda e: e.name)
    return _Scan(_listing(f, _name(path), items))


def _two(name):
    def g(src, dst, **k):
        if not (ours(src) or ours(dst)):
            return _os[name](src, dst, **k)
        f = event("meta", _name(dst))
        if f:
            if f["kind"] == "crash":
                if f.get("frac", 0) > 0.5:
                    _os[name](src, dst, **k)
                crash()
            fail(f, _name(dst))
        return _os[name](src, dst, **k)
    return g


def install():
    builtins.open = sim_open
    io.open = sim_open
    import _io
    _io.open = sim_open
    os.open, os.close, os.read, os.write = _os_open, _os_close, _os_read, _os_write
    os.listdir, os.scandir = _listdir, _scandir
    os.replace, os.rename = _two("replace"), _two("rename")
