"""The same run in two process environments, and what a run leaves behind in
the process.

scenario = {mod, world, ops, inject: [{i, n, exc}], env: {zygote, date, rng,
            thread, gc, junk, cwd, recursion}}
The base environment is a pristine child of this process; the other one is a
pristine child of an interpreter started with another hash seed / locale / time
zone, in which clock, random state, memory layout, garbage collector, working
directory and calling thread differ as well.
"""
import decimal
import gc
import hashlib
import importlib
import json
import locale
import logging
import os
import random
import shutil
import signal
import socket
import sys
import tempfile
import threading
import warnings

import numpy as np

from . import bootstrap, clock, forkrun, fsim, zygote
from .compare import diff
from .driver import Check
from .histcheck import outcome, rnd, strip
from .sched import run_single

MODS = {"world": 4, "callworld": 5, "fileworld": 3, "modelworld": 2}
GROUPS = {
    "world": {"query": 5, "build": 2, "setter": 2, "model": 2, "analysis": 2},
    "callworld": {},
    "fileworld": {"save": 3, "load": 3, "csv": 1, "edm": 4, "book": 2},
    "modelworld": {},
}


def groups(wd, mod):
    return {g: GROUPS[mod].get(g, 1) for g in sorted({o.group for o in wd.OPS.values()})
            if g != "replace"}


def settings():
    """Process-wide state that belongs to the program, not to the library."""
    import pandas as pd
    st = np.random.get_state()
    out = {
        "np.random": hashlib.sha256(st[1].tobytes() + repr(st[2:]).encode()).hexdigest()[:16],
        "random": hashlib.sha256(repr(random.getstate()).encode()).hexdigest()[:16],
        "np.geterr": dict(np.geterr()),
        "np.printoptions": {k: repr(v) for k, v in np.get_printoptions().items()},
        "warnings.filters": [repr(f) for f in warnings.filters],
        "warnings.showwarning": warnings.showwarning is _quiet,
        "cwd": os.getcwd(),
        "environ": dict(os.environ),
        "sys.path": list(sys.path),
        "logging": [logging.root.level, len(logging.root.handlers), logging.root.manager.disable],
        "decimal": repr(decimal.getcontext()),
        "locale": locale.setlocale(locale.LC_ALL),
        "recursionlimit": sys.getrecursionlimit(),
        "gc": [gc.isenabled(), list(gc.get_threshold())],
        "sigint": repr(signal.getsignal(signal.SIGINT)),
        "hooks": [repr(sys.excepthook), repr(threading.excepthook), repr(sys.displayhook)],
        "streams": [id(sys.stdout), id(sys.stderr), id(sys.stdin)],
        "socket timeout": socket.getdefaulttimeout(),
        "threads": threading.active_count(),
        "umask": oct(_umask()),
        "pandas": [pd.get_option(k) for k in (
            "display.precision", "display.max_rows", "display.max_columns", "display.float_format")],
    }
    return out


def _quiet(*a, **k):
    pass


def _umask():
    u = os.umask(0o22)
    os.umask(u)
    return u


def fds():
    out = []
    for f in os.listdir("/proc/self/fd"):
        try:
            out.append((int(f), os.readlink(f"/proc/self/fd/{f}")))
        except OSError:
            pass
    return sorted(x for x in out if not x[1].startswith(("/proc/", "pipe:", "socket:"))
                  and not x[1].endswith("/proj.db"))      # kept open by the PROJ library, once per thread


def observe(sc, base):
    bootstrap.load()
    wd = importlib.import_module("sim." + sc["mod"])
    env = {} if base else sc["env"]
    warnings.simplefilter("default")
    warnings.showwarning = _quiet
    junk = []
    rng = random.Random(env.get("junk", 0))
    if env.get("junk"):
        junk = [bytearray(rng.randrange(1, 5000)) for _ in range(3000)]
        for k in range(0, len(junk), 2):
            junk[k] = None
    if env.get("gc") == "off":
        gc.disable()
    elif env.get("gc"):
        gc.set_threshold(env["gc"])
    try:
        o = wd.build(sc["world"])
    except Exception as e:                                # noqa
        return {"build": (type(e).__name__, str(e)[:160])}
    scratch = None
    if sc["mod"] != "fileworld":
        scratch = tempfile.mkdtemp(prefix="simcwd-", dir="/tmp")
        forkrun.CLEANUP.append(lambda: shutil.rmtree(scratch, ignore_errors=True))
        os.chdir(scratch)
        clock.activate(clock.Clock(env.get("date", "2024-02-29T12:00:00")))
    s = env.get("rng", 11)
    random.seed(s)
    np.random.seed(s % 2**32)
    inj = {j["i"]: j for j in sc["inject"]}
    recs, left = [], []
    before = [settings(), fds()]

    def check(i, what):
        gc.collect()
        now = [settings(), fds()]
        e = diff(now[0], before[0], "process")
        if e:
            left.append((i, what, "settings", e))
        f = [x for x in now[1] if x not in before[1]]
        if f:
            left.append((i, what, "descriptor", repr(f)))
        if scratch:
            new = sorted(os.listdir(scratch))
            if new:
                left.append((i, what, "file", repr(new[:5])))
                shutil.rmtree(scratch)
                os.mkdir(scratch)
                os.chdir(scratch)
        before[:] = now

    def body():
        before[:] = [settings(), fds()]
        for i, d in enumerate(sc["ops"]):
            fsim.begin()
            if i in inj:
                r, _, f = run_single(lambda: wd.run_op(o, d), inject=(inj[i]["n"], inj[i]["exc"]))
                r = None
                recs.append(("fired", inj[i]["exc"]) if f else ("not reached",))
                check(i, "interrupted" if f else "done")
            recs.append(outcome(lambda: wd.run_op(o, d))[:2])
            check(i, "done" if recs[-1][0] == "ok" else "raised")

    if env.get("thread"):
        box = []

        def run():
            try:
                body()
            except BaseException as e:                    # noqa
                box.append(e)
        threading.stack_size(16 << 20)
        t = threading.Thread(target=run, name="worker")
        t.start()
        t.join()
        if box:
            raise box[0]
    else:
        body()
    return {"recs": recs, "left": left, "objs": [_obj(wd, o, i) for i in range(wd.count(sc["world"]))]}


def order(a, b, path):
    """First dictionary whose entries come in another order, or None."""
    if isinstance(a, dict) and isinstance(b, dict):
        if list(a) != list(b):
            return f"{path}: entries in another order: {list(a)[:8]} vs {list(b)[:8]}"
        pairs = [(f"{path}.{k}", a[k], b[k]) for k in a]
    elif isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        pairs = [(f"{path}[{k}]", x, y) for k, (x, y) in enumerate(zip(a, b))]
    else:
        return None
    return next((e for e in (order(x, y, p) for p, x, y in pairs) if e), None)


def _obj(wd, o, i):
    try:
        return wd.obs_obj(o, i)
    except Exception as e:                                # noqa
        return ("raise", type(e).__name__)


class EnvCheck(Check):
    lists = ("ops",)
    nops = (1, 4)
    p_inject = 0.2
    mods = MODS
    real = "all of welleng and its dependencies, in two differently started interpreters"
    stub = "wall clock, magnetic-field service (unreachable)"
    assumptions = ["numbers are compared to 1e-9 relative"]

    def start(self):
        zygote.start()

    def stop(self):
        zygote.stop()

    def gen(self, rng, i):
        mod = rng.choices(list(self.mods), list(self.mods.values()))[0]
        wd = importlib.import_module("sim." + mod)
        ops, kw = [], {}
        if mod == "fileworld":
            kw = {"kinds": rng.choice(FILEKINDS)}
        elif mod == "callworld":
            kw = {"kinds": rng.choice(CALLKINDS)}
        w = wd.gen_world(rng, **kw)
        n = rng.randint(*self.nops)
        gs = groups(wd, mod)
        while len(ops) < n:
            if mod in ("fileworld", "callworld"):
                have = {x["t"] for x in w["objs"]}
                pool = [k for k, v in wd.OPS.items() if v.group != "replace" and all(t in have for t in v.types)]
            else:
                pool = wd.names(rng.choices(list(gs), list(gs.values()))[0])
            d = wd.gen_op(rng, w, pool)
            d.pop("t", None)
            ops.append(d)
        env = {"zygote": rng.randrange(len(zygote.ENVS)), "rng": rng.randrange(1 << 30),
               "date": rng.choice(["1999-12-31T23:59:59", "2024-02-29T00:00:01", "2031-07-15T08:30:00",
                                   "2038-01-19T03:14:08"])}
        if rng.random() < 0.5:
            env["thread"] = True
        if rng.random() < 0.6:
            env["junk"] = rng.randrange(1, 1 << 20)
        if rng.random() < 0.5:
            env["gc"] = rng.choice(["off", 1, 23, 5000])
        inject = [{"i": k, "n": int(10 ** rng.uniform(0, 3.7)),
                   "exc": rng.choice(["KeyboardInterrupt", "MemoryError"])}
                  for k in range(n) if rng.random() < self.p_inject]
        return {"mod": mod, "world": w, "ops": ops, "env": env, "inject": inject}

    def candidates(self, sc):
        n = len(sc["ops"])
        size = max(1, n // 2)
        while n and size >= 1:
            for a in range(0, n, size):
                keep = [i for i in range(n) if not a <= i < a + size]
                m = {o: k for k, o in enumerate(keep)}
                yield dict(sc, ops=[sc["ops"][i] for i in keep],
                           inject=[dict(j, i=m[j["i"]]) for j in sc["inject"] if j["i"] in m])
            size //= 2
        for k in range(len(sc["inject"])):
            yield dict(sc, inject=sc["inject"][:k] + sc["inject"][k + 1:])
        for k in ("thread", "junk", "gc", "date"):
            if k in sc["env"]:
                yield dict(sc, env={x: y for x, y in sc["env"].items() if x != k})

    def run(self, sc):
        a = forkrun.call(observe, sc, True)
        b = zygote.call(sc["env"]["zygote"], "sim.envcheck", "observe", sc, False)
        viol, probes, faults = [], {}, {}

        def bad(key, detail):
            viol.append({"key": key, "detail": detail[:1500]})

        sig = hashlib.sha256(repr([strip(d)["op"] for d in sc["ops"]] + [sorted(sc["env"])]).encode())
        if "build" in a or "build" in b:
            if a.get("build") != b.get("build"):
                bad("build", f"building the inputs: {a.get('build')} here, {b.get('build')} there")
            return {"violations": viol, "sig": sig.hexdigest(), "nontrivial": False, "execs": 2, "probes": {}}
        env = {k: zygote.ENVS[sc["env"]["zygote"]] if k == "zygote" else v for k, v in sc["env"].items()}
        ra, rb = [x for x in a["recs"] if x[0] in ("ok", "raise")], [x for x in b["recs"] if x[0] in ("ok", "raise")]
        for i, (x, y) in enumerate(zip(ra, rb)):
            e = diff(list(y), list(x), sc["ops"][i]["op"]) or order(y[1], x[1], sc["ops"][i]["op"])
            if e:
                bad(f"result:{sc['ops'][i]['op']}", f"op {i} {sc['ops'][i]['op']}: in {env} the answer differs: {e}")
            probes["answered" if x[0] == "ok" else "refused"] = probes.get(
                "answered" if x[0] == "ok" else "refused", 0) + 1
        for i, (x, y) in enumerate(zip(a["objs"], b["objs"])):
            e = diff(y, x, f"object{i}")
            if e and not viol:
                bad("state", f"after {[d['op'] for d in sc['ops']]} in {env}: {e}")
        for side, r in (("base", a), ("other", b)):
            for i, what, kind, e in r["left"]:
                bad(f"left:{kind}:{sc['ops'][i]['op']}",
                    f"op {i} {sc['ops'][i]['op']} ({what}) changed process-wide state: {kind} {e}")
            for x in r["recs"]:
                if x[0] == "fired":
                    faults[x[1]] = faults.get(x[1], 0) + 1
        faults["hash seed, locale, time zone or home changed"] = 1
        faults["random state changed"] = 1
        for k in ("thread", "junk", "gc", "date"):
            if sc["env"].get(k):
                faults[{"thread": "called from a worker thread", "junk": "heap layout changed",
                        "gc": "collector changed", "date": "clock changed"}[k]] = 1
        sig.update(repr(faults).encode())
        return {"violations": viol, "faults": faults, "sig": sig.hexdigest(), "nontrivial": bool(sc["ops"]),
                "execs": 2, "probes": probes,
                "digest": hashlib.sha256(repr(rnd(a["recs"])).encode()).hexdigest()}


CALLKINDS = [{"pos": 2, "vec": 2, "pts": 1, "num": 2, "sv": 2, "vecs": 2, "cov": 2},
             {"args": 2, "header": 2, "survey": 2, "pos": 1, "vec": 1},
             {"pos": 2, "vec": 2, "pts": 1, "node": 3, "target": 2, "conn": 2, "header": 1, "survey": 1},
             {"pos": 2, "vec": 2, "node": 3, "target": 2, "conn": 1},
             {"tdcase": 1, "fluid": 1, "num": 1}]
FILEKINDS = [{"out": 2, "plan": 2, "wbpfile": 1, "survey": 1}, {"xmlfile": 1}, {"bookfile": 1},
             {"outcsv": 1, "survey": 2}, {"wbpfile": 2},
             {"exbook": 1}, {"diagfile": 1}, {"owsgbook": 1, "toolout": 9}]
