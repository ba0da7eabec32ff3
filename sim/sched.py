"""Deterministic thread scheduler.

Caller threads are real threads, but exactly one runs at a time and the
simulator alone decides which.  The seam is the interpreter's trace hook: each
*line* (optionally each bytecode) executed in the library under test is a
scheduling point.  A decision is (thread, quantum): thread runs for `quantum`
scheduling points, then parks.  Faults (KeyboardInterrupt, MemoryError, ...)
can be raised at any scheduling point.  All decisions come from a seeded PRNG
or from an explicit list (replay).
"""
import dis
import ast
import hashlib
import os
import sys
import _thread
import threading
import zlib

from . import bootstrap

_tls = threading.local()


_WITH = {}


def find_withs():
    """Note the headers of the library's `with` statements (before any seam is active)."""
    for d, _, names in os.walk(bootstrap.PKG):
        for n in names:
            if n.endswith(".py"):
                lines = _WITH[os.path.join(d, n)] = set()
                try:
                    with open(os.path.join(d, n), encoding="utf-8") as f:
                        tree = ast.parse(f.read())
                except (OSError, SyntaxError, ValueError):
                    continue
                for x in ast.walk(tree):
                    if isinstance(x, ast.With):
                        lines.update(range(x.lineno, x.items[-1].context_expr.end_lineno + 1))


def at_with(frame):
    """On the header of a `with` statement, that is also where it is left:
    Python code can't be made safe against an exception between the end of the
    body and `__exit__`, so a fault due there strikes at the next point."""
    fn = frame.f_code.co_filename
    if fn not in _WITH:
        _WITH[fn] = _WITH.get(os.path.realpath(fn), ())
    return frame.f_lineno in _WITH[fn]


class SimDeadlock(BaseException):
    pass


class StepLimit(BaseException):
    """The outcome of a simulated thread whose step budget is spent."""


class SimLock:
    """Lock created by the library: yields to the scheduler when contended."""

    def __init__(self, reentrant=False):
        self.reentrant = reentrant
        self.owner = None
        self.depth = 0

    def acquire(self, blocking=True, timeout=-1):
        me = _thread.get_ident()
        while True:
            if self.owner is None or (self.reentrant and self.owner == me):
                self.owner = me
                self.depth += 1
                return True
            if not blocking:
                return False
            sim = getattr(_tls, "sim", None)
            if sim is None:
                raise SimDeadlock("lock held outside simulation")
            sim.block_on(self)

    __enter__ = acquire

    def release(self):
        if self.owner is None:
            raise RuntimeError("release unlocked lock")
        self.depth -= 1
        if self.depth == 0:
            self.owner = None

    def __exit__(self, *a):
        self.release()

    def locked(self):
        return self.owner is not None


EXC = {
    "KeyboardInterrupt": KeyboardInterrupt,
    "MemoryError": MemoryError,
}

_file_ok = {}


def is_lib(fn):
    r = _file_ok.get(fn)
    if r is None:
        r = _file_ok[fn] = os.path.realpath(fn).startswith(bootstrap.PKG)
    return r


class Sim:
    """Run `threads` (list of callables) under a deterministic schedule.

    decide(alive, sim) -> (tid, quantum)   or an explicit decision list.
    inject: {tid: (event_no, exc_name)} raise at the thread's event_no-th point.
    """

    def __init__(self, threads, rng=None, decisions=None, profile="mix",
                 inject=None, opcode=False, max_steps=8_000_000):
        self.fns = threads
        self.n = len(threads)
        self.rng = rng
        self.explicit = list(decisions) if decisions is not None else None
        self.profile = profile
        self.inject = dict(inject or {})
        self.opcode = opcode
        self.max_steps = max_steps
        self.decisions = []            # recorded
        self.counts = [0] * self.n     # scheduling points per thread
        self.quantum = [0] * self.n
        self.done = [False] * self.n
        self.results = [None] * self.n
        self.fired = []
        self.switch_sites = []
        self.steps = 0
        self.over = False
        self.preemptions = 0
        self._go = [_thread.allocate_lock() for _ in range(self.n)]
        self._ctl = _thread.allocate_lock()
        self._blocked = [None] * self.n
        self.log = hashlib.sha256()
        # "hot" profile: a seeded subset of the code's lines, switched at
        # whenever a thread gets there (often at first, rarely later on)
        self.hot = None
        if self.explicit is None and profile == "hot":
            self.hot = (rng.randrange(1 << 30), rng.choice((3, 8, 20, 60)))
        self._hot_site = {}
        self._hot_hits = {}

    def _is_hot(self, frame):
        k = (frame.f_code, frame.f_lineno)
        h = self._hot_site.get(k)
        if h is None:
            txt = f"{os.path.basename(k[0].co_filename)}:{k[0].co_name}:{k[1]}:{self.hot[0]}"
            h = self._hot_site[k] = zlib.crc32(txt.encode()) % self.hot[1] == 0
        if not h:
            return False
        n = self._hot_hits[k] = self._hot_hits.get(k, 0) + 1
        return n <= 4 or self.rng.random() < 4 / n

    # ------------------------------------------------------------ threads
    def _park(self, tid, frame):
        self.preemptions += 1
        site = (tid, os.path.basename(frame.f_code.co_filename),
                frame.f_code.co_name, frame.f_lineno) if frame else (tid, "lock", "", 0)
        self.switch_sites.append(site)
        self.log.update(repr(site).encode())
        self._ctl.release()
        self._go[tid].acquire()

    def block_on(self, lock):
        tid = _tls.tid
        self._blocked[tid] = lock
        self._park(tid, None)
        self._blocked[tid] = None

    def _point(self, tid, frame):
        self.counts[tid] += 1
        self.steps += 1
        inj = self.inject.get(tid)
        if inj is not None and self.counts[tid] >= inj[0] and not at_with(frame):
            del self.inject[tid]
            self.fired.append((tid, self.counts[tid], inj[1], frame.f_code.co_name, frame.f_lineno))
            self.log.update(repr(self.fired[-1]).encode())
            raise EXC[inj[1]]("injected")
        if self.steps > self.max_steps:                 # the run stops here, as it is
            self.over = True
            self._park(tid, frame)
        self.quantum[tid] -= 1
        if self.quantum[tid] == 0:
            self._park(tid, frame)
        elif self.hot is not None and len(self.decisions) < 2000 and self._is_hot(frame):
            # record the decision as the number of points it really lasted
            self.decisions[-1][1] -= self.quantum[tid]
            self._park(tid, frame)

    def _tracer(self, tid):
        opcode = self.opcode
        point = self._point

        def local(frame, event, arg):
            if event == "line" and not opcode:
                point(tid, frame)
            elif event == "opcode":
                point(tid, frame)
            return local

        def glob(frame, event, arg):
            if is_lib(frame.f_code.co_filename):
                if opcode:
                    frame.f_trace_opcodes = True
                    frame.f_trace_lines = False
                return local
            return None

        return glob

    def _body(self, tid):
        _tls.sim, _tls.tid = self, tid
        self._go[tid].acquire()
        try:
            sys.settrace(self._tracer(tid))
            try:
                self.results[tid] = ("ok", self.fns[tid]())
            finally:
                sys.settrace(None)
        except BaseException as e:                     # noqa
            self.results[tid] = ("raise", e)
        finally:
            sys.settrace(None)
            self.done[tid] = True
            self.log.update(b"done%d" % tid)
            self._ctl.release()

    # --------------------------------------------------------- controller
    def _choose(self, alive):
        if self.explicit is not None:
            while self.explicit:
                tid, q = self.explicit.pop(0)
                if tid in alive:
                    return tid, q
            return alive[0], 0
        rng = self.rng
        tid = alive[rng.randrange(len(alive))]
        p = self.profile
        if p == "mix":
            p = rng.choice(("fine", "medium", "coarse", "long"))
        if self.hot is not None:
            if len(self.decisions) > 1 and len(alive) > 1 and rng.random() < 0.7:
                last = self.decisions[-1][0]
                tid = rng.choice([t for t in alive if t != last] or alive)
            return tid, 1 << 40
        if len(self.decisions) > 400:
            return tid, 0
        if p == "fine":
            q = rng.randint(1, 6)
        elif p == "medium":
            q = rng.randint(1, 80)
        elif p == "coarse":
            q = rng.randint(1, 1500)
        elif p == "long":
            q = rng.randint(1, 20000)
        else:                                           # "serial"
            q = 0
        return tid, q

    def run(self):
        self._ctl.acquire()
        ths = []
        for t in range(self.n):
            self._go[t].acquire()
            th = threading.Thread(target=self._body, args=(t,), daemon=True)
            ths.append(th)
            th.start()
        while not all(self.done):
            alive = [t for t in range(self.n) if not self.done[t]
                     and not (self._blocked[t] is not None and self._blocked[t].locked())]
            if not alive:
                raise SimDeadlock("all simulated threads blocked")
            tid, q = self._choose(alive)
            self.decisions.append([tid, q])
            self.quantum[tid] = q
            self._go[tid].release()
            self._ctl.acquire()
            if self.over:
                return [r or ("raise", StepLimit()) for r in self.results]
        for th in ths:
            th.join()
        return self.results

    def digest(self):
        return self.log.hexdigest()


CHANGES = ("STORE_ATTR", "DELETE_ATTR", "STORE_SUBSCR", "DELETE_SUBSCR", "STORE_GLOBAL", "STORE_SLICE")
CALLS = ("append", "extend", "insert", "update", "pop", "clear", "remove", "sort", "setattr", "add", "discard")
_changing = {}


def changing(code):
    """Lines of a function that change an object: the names on them."""
    if code not in _changing:
        out, names, line = set(), {}, None
        for i in dis.get_instructions(code):
            line = i.positions.lineno or line
            if i.opname in CHANGES or i.argval in CALLS and i.opname.startswith("LOAD"):
                out.add(line)
            if i.opname.startswith(("LOAD_FAST", "LOAD_DEREF")):
                names.setdefault(line, set()).add(i.argval)
        _changing[code] = {k: tuple(names.get(k, ())) for k in out}
    return _changing[code]


def reachable(root):
    """Ids of the library's objects the caller holds, directly or inside another."""
    out, todo, keep = set(), [root], []
    while todo:
        x = todo.pop()
        if isinstance(x, (list, tuple, set)):
            todo.extend(x)
        elif isinstance(x, dict):
            todo.extend(x.values())
        elif x is root or type(x).__module__.startswith("welleng."):
            if id(x) not in out and hasattr(x, "__dict__"):
                out.add(id(x))
                keep.append(x)
                todo.extend(vars(x).values())
    return out


def run_single(fn, inject=None, opcode=False, max_steps=20_000_000, firsts=None, hots=None,
               held=()):
    """Run `fn` in the current thread with tracing; returns (result, events, fired).
    `firsts`, a list, gets the event number at which each line first ran, `hots`
    (two lists) those of them that come right after a line that changed something,
    and that changed an object in `held` (ids)."""
    box = {"n": 0, "fired": None, "last": None, "mine": False}
    seen, told = set(), set()

    def local(frame, event, arg):
        if event == "line" or event == "opcode":
            box["n"] += 1
            if firsts is not None:
                at = (frame.f_code.co_filename, frame.f_lineno)
                last = box["last"]
                if at not in seen:
                    seen.add(at)
                    firsts.append(box["n"])
                    if last is not None and last[0].co_name != "__init__" and last[1] in changing(last[0]):
                        hots[0].append(box["n"])
                if box["mine"]:
                    told.add(last)
                    hots[1].append(box["n"])
                box["last"] = (frame.f_code, frame.f_lineno)
                names = changing(frame.f_code).get(frame.f_lineno)
                box["mine"] = bool(names) and box["last"] not in told and any(
                    id(v) in held for v in (frame.f_locals.get(k) for k in names))
            if inject is not None and box["fired"] is None and box["n"] >= inject[0] and not at_with(frame):
                box["fired"] = (box["n"], inject[1], frame.f_code.co_name, frame.f_lineno)
                raise EXC[inject[1]]("injected")
            if box["n"] > max_steps and not at_with(frame):
                raise StepLimit()
        return local

    def glob(frame, event, arg):
        if is_lib(frame.f_code.co_filename):
            if opcode:
                frame.f_trace_opcodes = True
                frame.f_trace_lines = False
            return local
        return None

    sys.settrace(glob)
    try:
        try:
            r = ("ok", fn())
        finally:
            sys.settrace(None)
    except BaseException as e:                          # noqa
        r = ("raise", e)
    return r, box["n"], box["fired"]
