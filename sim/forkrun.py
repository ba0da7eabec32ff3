"""Run a function in a forked child of this (pristine) process and return its
pickled result.  The parent never executes library code, so each child starts
from the freshly imported state: the reference for 'what this operation gives
when nothing else has ever happened'."""
import os
import pickle
import select
import signal
import time
import traceback


class ChildError(Exception):
    """Harness failure in the child (not an observation)."""


class ChildTimeout(ChildError):
    pass


CLEANUP = []          # run when a child ends (scratch directories)
_out = None


def emit(val):
    """In a child: hand over `val` and be gone at once (nothing is flushed)."""
    _write(_out, pickle.dumps(("ok", val), protocol=4))
    os._exit(0)


def _write(fd, data):
    while data:
        data = data[_real_write(fd, data):]


_real_write = os.write


def call(fn, *args, timeout=120.0, cleanup=True):
    global _out
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            _out = w
            if not cleanup:
                CLEANUP.clear()
            try:
                out = pickle.dumps(("ok", fn(*args)), protocol=4)
            except BaseException:                        # noqa
                out = pickle.dumps(("err", traceback.format_exc()), protocol=4)
            for c in CLEANUP:
                try:
                    c()
                except Exception:                        # noqa
                    pass
            _write(w, out)
        except BaseException:                            # noqa
            code = 3
        finally:
            os._exit(code)
    os.close(w)
    buf = bytearray()
    end = time.monotonic() + timeout
    try:
        while True:
            left = end - time.monotonic()
            if left <= 0:
                raise ChildTimeout(f"child exceeded {timeout}s")
            rd, _, _ = select.select([r], [], [], min(left, 1.0))
            if not rd:
                continue
            b = os.read(r, 1 << 20)
            if not b:
                break
            buf += b
    except ChildTimeout:
        os.kill(pid, signal.SIGKILL)
        raise
    finally:
        os.close(r)
        st = os.waitpid(pid, 0)[1]
    if not buf:
        raise ChildError(f"child died without a result (status {st})")
    kind, val = pickle.loads(bytes(buf))
    if kind == "err":
        raise ChildError(val)
    return val
