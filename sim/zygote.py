"""Interpreters with another start-up environment (hash seed, locale, time
zone).  Each has imported the library and forks one child per request, the way
`forkrun` does in this process, so that the same simulated run can be repeated
in a different environment."""
import os
import pickle
import select
import shutil
import signal
import socket
import struct
import subprocess
import sys
import tempfile
import time

from . import bootstrap, forkrun

ENVS = [
    {"PYTHONHASHSEED": "1"},
    {"PYTHONHASHSEED": "4242", "LC_ALL": "C", "LANG": "C", "PYTHONUTF8": "0", "PYTHONCOERCECLOCALE": "0"},
    {"PYTHONHASHSEED": "77", "TZ": "Pacific/Kiritimati", "HOME": "/nonexistent", "COLUMNS": "40"},
]

_dir = None
_procs = []


def sock(k):
    return os.path.join(_dir, f"z{k}")


def start():
    """Idempotent; the sockets are inherited by the worker processes."""
    global _dir
    if _procs:
        return
    _dir = tempfile.mkdtemp(prefix="simzyg-", dir="/tmp")
    for k, e in enumerate(ENVS):
        env = dict(os.environ, **e, SIM_HASHSEED=e["PYTHONHASHSEED"])
        _procs.append(subprocess.Popen(
            [bootstrap.PY, "-W", "ignore", os.path.join(bootstrap.VERIF, "run.py"), "zygote", sock(k)],
            env=dict(env, SIM_ZYGOTE="1"), stdin=subprocess.PIPE))
    end = time.monotonic() + 120
    while not all(os.path.exists(sock(k)) for k in range(len(ENVS))):
        if time.monotonic() > end or any(p.poll() is not None for p in _procs):
            stop()
            raise RuntimeError("zygote did not start")
        time.sleep(0.05)


def stop():
    global _dir
    for p in _procs:
        try:
            p.stdin.close()
            p.wait(10)
        except Exception:                                # noqa
            p.kill()
    _procs.clear()
    if _dir:
        shutil.rmtree(_dir, ignore_errors=True)
        _dir = None


def _recv(c, n):
    b = bytearray()
    while len(b) < n:
        x = c.recv(n - len(b))
        if not x:
            raise forkrun.ChildError("connection closed")
        b += x
    return bytes(b)


def call(k, mod, fn, *args, timeout=120.0):
    """forkrun.call in environment k."""
    c = socket.socket(socket.AF_UNIX)
    c.settimeout(timeout)
    try:
        c.connect(sock(k))
        b = pickle.dumps((mod, fn, args), protocol=4)
        c.sendall(struct.pack("<q", len(b)) + b)
        n, = struct.unpack("<q", _recv(c, 8))
        kind, val = pickle.loads(_recv(c, n))
    except socket.timeout:
        raise forkrun.ChildTimeout(f"environment {k}")
    finally:
        c.close()
    if kind == "err":
        raise forkrun.ChildError(val)
    return val


def serve(path):
    """Main of an environment process."""
    import importlib
    bootstrap.load()
    for m in ("sim.envcheck", "sim.world", "sim.callworld", "sim.fileworld", "sim.modelworld"):
        importlib.import_module(m)
    signal.signal(signal.SIGCHLD, signal.SIG_IGN)
    s = socket.socket(socket.AF_UNIX)
    s.bind(path + ".tmp")
    s.listen(64)
    os.rename(path + ".tmp", path)
    while True:
        r, _, _ = select.select([s, 0], [], [])
        if 0 in r:
            os._exit(0)
        c, _ = s.accept()
        if os.fork() == 0:
            signal.signal(signal.SIGCHLD, signal.SIG_DFL)
            signal.alarm(200)
            s.close()
            os.close(0)
            os.open("/dev/null", os.O_RDONLY)
            try:
                n, = struct.unpack("<q", _recv(c, 8))
                mod, fn, args = pickle.loads(_recv(c, n))
                try:
                    out = ("ok", forkrun.call(getattr(importlib.import_module(mod), fn), *args, timeout=150))
                except forkrun.ChildError as e:
                    out = ("err", str(e))
                b = pickle.dumps(out, protocol=4)
                c.sendall(struct.pack("<q", len(b)) + b)
            finally:
                os._exit(0)
        c.close()
