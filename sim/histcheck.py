"""Histories of operations on a shared world, judged against each operation run
alone on freshly built inputs in a pristine process.

scenario = {
  world, ops: [{op, s, ..., t}], threads: bool, sched_seed, schedule, profile,
  opcode: bool, inject: [{i, frac, exc}], scribble: [op indices]
}
Reference: for every operation, a pristine child builds only the surveys the
operation names (each with its own header), applies the earlier setters of the
same surveys, and runs the operation.  Nothing else has ever happened there.
"""
import copy
import hashlib
import json
import random

import numpy as np

from . import bootstrap, forkrun, fsim
from .compare import diff
from .driver import Check
from .sched import Sim, reachable, run_single


def W(name="world"):
    import importlib
    return importlib.import_module(f"sim.{name}")


# ------------------------------------------------------------------ children

def needed(d):
    """Indices of the objects an operation works on, its own first."""
    n = [d["s"]]
    for k in ("o", "s2"):
        if k in d and d[k] not in n:
            n.append(d[k])
    for k in d.get("objs", ()):
        if k not in n:
            n.append(k)
    return n


def touched(wd, d):
    """Indices of the objects an operation changes."""
    if not wd.OPS[d["op"]].mutates:
        return []
    f = getattr(wd, "touched", None)
    return f(d) if f else [d["s"]]


def outcome(fn):
    try:
        return ("ok", fn())
    except Exception as e:                                # noqa
        return ("raise", type(e).__name__, str(e)[:160])


def ref_op(mod, w, setters, d, count):
    """Reference outcome of `d` after `setters` on the same surveys."""
    bootstrap.load()
    wd = W(mod)
    keep = needed(d)
    for x in setters:
        keep += [k for k in needed(x) if k not in keep]
    try:
        o = wd.build_minimal(w, keep, d)
        for x in setters:
            outcome(lambda: wd.run_op(o, x))
    except Exception as e:                                # noqa
        return {"build": (type(e).__name__, str(e)[:160])}
    fsim.begin()
    if count:
        firsts, hots = [], ([], [])
        r, n, _ = run_single(lambda: outcome(lambda: wd.run_op(o, d)), firsts=firsts, hots=hots,
                             held=reachable(o))
        return {"out": r[1], "events": n, "firsts": firsts, "hots": hots, "io": dict(fsim.S.counts)}
    return {"out": outcome(lambda: wd.run_op(o, d)), "events": 0, "io": dict(fsim.S.counts)}


def ref_state(mod, w, s, setters):
    """Reference snapshots of survey `s` after 0, 1, ... setters."""
    bootstrap.load()
    wd = W(mod)
    keep = [s]
    for x in setters:
        keep += [k for k in needed(x) if k not in keep]
    try:
        o = wd.build_minimal(w, keep)
    except Exception as e:                                # noqa
        return {"build": (type(e).__name__, str(e)[:160])}
    out, rejected = [wd.obs_obj(o, s)], []
    for x in setters:
        r = outcome(lambda: wd.run_op(o, x))
        if s in touched(wd, x):
            out.append(wd.obs_obj(o, s))
            if r[0] == "raise":
                rejected.append((len(out) - 2, x["op"], r[1]))
    return {"states": out, "rejected": rejected}


def ref_plain(mod, w, idx):
    """Original content of objects that are plain data, all from one process."""
    bootstrap.load()
    wd = W(mod)
    try:
        o = wd.build_minimal(w, idx)
    except Exception as e:                                # noqa
        return [{"build": (type(e).__name__, str(e)[:160])}] * len(idx)
    return [{"states": [wd.obs_obj(o, s)], "rejected": []} for s in idx]


def ref_shared(mod, w):
    bootstrap.load()
    wd = W(mod)
    return wd.ref_shared(w)


def resolve(faults, counts):
    """Place faults given as a fraction of the operation's I/O events."""
    out = []
    for f in faults:
        n = counts.get(f["on"], 0)
        if n:
            out.append(dict(f, n=min(n - 1, int(f["at"] * n))))
    return out


def io_op(wd, o, d, faults):
    """One operation under storage faults -> (fired, outcome)."""
    if not any(f["kind"] == "crash" for f in faults):
        fsim.begin(faults)
        out = outcome(lambda: wd.run_op(o, d))
        fired, _ = fsim.end()
        return fired, out

    def doomed():
        # the process dies inside a write, or right after the call returned
        fsim.begin(faults)
        fsim.S.on_crash = lambda: forkrun.emit((("crash",), list(fsim.S.fired)))
        out = outcome(lambda: wd.run_op(o, d))
        forkrun.emit((("returned",) if out[0] == "ok" else out, list(fsim.S.fired)))

    first, fired = forkrun.call(doomed, cleanup=False)
    return fired, first


def atomic(wd, d):
    """Objects a failed operation leaves as they were (or fully changed)."""
    f = getattr(wd, "atomic", None)
    return f(d) if f else []


def vary(rng, w, wd, d):
    """The same operation again with some of its parameters changed."""
    e = wd.gen_op(rng, w, [d["op"]])
    if rng.random() < 0.7:
        e.update({k: d[k] for k in ("s", "objs") if k in d})
    for k in sorted(set(d) & set(e) - {"s", "objs"}):
        if rng.random() < 0.5:
            e[k] = json.loads(json.dumps(d[k]))
    return e


def shots(sc):
    out = {}
    for j in sc.get("inject", []):
        out.setdefault(j["i"], []).append(j)
    return out


def main_child(mod, sc, events, iocounts=None):
    bootstrap.load()
    wd = W(mod)
    w = sc["world"]
    try:
        o = wd.build(w)
    except Exception as e:                                # noqa
        return {"build": (type(e).__name__, str(e)[:160])}
    snaps = [wd.snapshot(o)]
    rec = []
    inj = shots(sc)
    if sc.get("threads"):
        nt = 1 + max(d["t"] for d in sc["ops"])
        idx = [[i for i, d in enumerate(sc["ops"]) if d["t"] == t] for t in range(nt)]
        idx = [x for x in idx if x]
        rec = [None] * len(sc["ops"])

        def body(ix):
            def f():
                for i in ix:
                    rec[i] = outcome(lambda: wd.run_op(o, sc["ops"][i]))
            return f

        sim = Sim([body(ix) for ix in idx], rng=random.Random(sc["sched_seed"]),
                  decisions=sc.get("schedule"), profile=sc.get("profile", "mix"),
                  opcode=sc.get("opcode", False))
        res = sim.run()
        for r in res:
            if r[0] == "raise":
                rec.append(("raise", type(r[1]).__name__, "thread body: " + str(r[1])[:160]))
        snaps.append(wd.snapshot(o))
        return {"rec": rec, "snaps": snaps, "steps": sim.steps, "preempt": sim.preemptions,
                "decisions": sim.decisions, "digest": sim.digest(), "fired": [],
                "sites": sorted({repr(s[1:]) for s in sim.switch_sites})[:40]}
    fired = []
    io = {j["i"]: j["faults"] for j in sc.get("io", [])}
    for i, d in enumerate(sc["ops"]):
        if i in io:
            f, first = io_op(wd, o, d, resolve(io[i], iocounts.get(i, {})))
            fired.append([i, f])
            mid = {j: wd.obs_obj(o, j) for j in list(wd.outputs(d)) + atomic(wd, d)}
            fsim.begin()
            again = outcome(lambda: wd.run_op(o, d))
            rec.append(("io", f, first, again, mid))
        elif i in inj:
            total, firsts, hots = events.get(i, (1, [], ([], [])))
            got = []
            for x in inj[i]:
                n = 1 + int(x["frac"] * max(total - 1, 0))
                hot = x.get("hot") and (x.get("held") and hots[1] or hots[0])
                if hot:                                   # right after a line that changes something
                    n = hot[min(int(x["frac"] * len(hot)), len(hot) - 1)]
                elif x.get("line") and firsts:            # each line as likely, however often it runs
                    n = firsts[min(int(x["frac"] * len(firsts)), len(firsts) - 1)]
                r, _, f = run_single(lambda: wd.run_op(o, d), inject=(n, x["exc"]))
                if f:
                    fired.append([i, list(f)])
                first = ("ok", r[1]) if r[0] == "ok" else (
                    "raise", type(r[1]).__name__, str(r[1])[:160])
                mid = {j: wd.obs_obj(o, j) for j in needed(d)} if f else {}
                got.append((bool(f), x["exc"], first, mid, outcome(lambda: wd.run_op(o, d))))
            rec.append(("injected", got))
        else:
            rec.append(outcome(lambda: wd.run_op(o, d)))
        if i in sc.get("scribble", ()):
            scribble_op(wd, o, d)
        snaps.append(wd.snapshot(o))
    return {"rec": rec, "snaps": snaps, "steps": 0, "preempt": 0, "decisions": None,
            "digest": "", "fired": fired, "sites": []}


def scribble_op(wd, o, d):
    """Run the operation once more the way a caller would and overwrite the
    arrays it returned."""
    base = W()
    base.CAPTURE = cap = []
    try:
        outcome(lambda: wd.run_op(o, d))
    finally:
        base.CAPTURE = None
    for x in cap:
        scribble(x)


def scribble(x, depth=0):
    t = type(x).__name__
    if isinstance(x, np.ndarray):
        if x.flags.writeable and x.dtype.kind == "f":
            x[...] = -12345.678
    elif isinstance(x, list) and depth < 4:
        for v in x:
            scribble(v, depth + 1)
        x.clear()
    elif isinstance(x, tuple) and depth < 4:
        for v in x:
            scribble(v, depth + 1)
    elif isinstance(x, dict) and depth < 4:
        for k, v in list(x.items()):
            if type(v).__name__ != "Survey":
                scribble(v, depth + 1)
        x.clear()
    elif t in ("Survey", "Node") and depth < 3:
        for n, v in sorted(vars(x).items()):
            if isinstance(v, (np.ndarray, list)):
                scribble(v, depth + 1)
        if t == "Node":
            for n in ("md", "inc_rad", "azi_rad", "unit"):
                setattr(x, n, -1.0)
    elif t == "WellPlan":
        for v in x.steps:
            v.md, v.inc, v.location = -1.0, -1.0, [0.0, 0.0, 0.0]
        for v in x.targets:
            v.name, v.location = "scribbled", None
            (v.geometry.get("color") or {})["color"] = -1
            v.geometry["type"] = "scribbled"
        x.steps.clear()
        x.targets.clear()
        x.plan_name = "scribbled"
    elif t == "DataFrame":
        x.iloc[:, :] = -1.0


# ------------------------------------------------------------------ the check

class HistCheck(Check):
    lists = ("ops", "schedule", "inject", "scribble", "io")
    mod = "world"                 # module with the vocabulary
    weights = {}                  # op group -> weight
    only = None                   # optional explicit op names
    p_threads = 0.0
    p_inject = 0.0
    shots = (1,)                                          # interruptions of one operation, each followed by a retry
    p_hot = 0.5                                           # of them: right after a line that changes an object
    p_scribble = 0.0
    p_io = 0.0                    # storage faults inside an operation
    io_kinds = {"open": ("EACCES", "EIO", "EMFILE"), "read": ("EIO", "EIO", "short"),
                "write": ("EIO", "ENOSPC", "torn", "short", "crash"), "close": ("EIO", "ENOSPC", "crash"),
                "list": ("EIO", "shuffle", "shuffle")}
    io_weights = {"open": 2, "read": 5, "write": 7, "close": 1, "list": 3}
    p_repeat = 0.25
    p_opcode = 0.15
    p_mirror = 0.35               # threads run the same operations on different surveys
    nops = (2, 6)
    inject_setters = True
    world_kw = {}
    exc_kinds = ("KeyboardInterrupt",)
    real = "all of welleng, numpy, scipy (and trimesh/fcl where meshes are built)"
    stub = "wall clock, magnetic-field service (unreachable), OS thread scheduling"
    assumptions = ["preemption happens between Python lines or bytecodes, not inside a C call"]

    @property
    def wd(self):
        return W(self.mod)

    def exc_for(self, d):
        return self.exc_kinds

    def gen_world(self, rng):
        return self.wd.gen_world(rng, **self.world_kw)

    def pick_op(self, rng, w):
        wd = self.wd
        gs = [g for g in self.weights if self.weights[g] > 0]
        g = rng.choices(gs, [self.weights[g] for g in gs])[0]
        pool = [n for n in wd.names(g) if self.only is None or n in self.only]
        return wd.gen_op(rng, w, pool)

    def gen(self, rng, i):
        wd = self.wd
        w = self.gen_world(rng)
        n = rng.randint(*self.nops)
        threads = rng.random() < self.p_threads
        ops = []
        while len(ops) < n:
            if ops and rng.random() < self.p_repeat:
                d = json.loads(json.dumps(rng.choice(ops)))
                r = rng.random()
                if r < 0.3:
                    d = wd.repick(rng, w, d)
                elif r < 0.65 and getattr(wd, "VARY", False):
                    d = vary(rng, w, wd, d)
            else:
                d = self.pick_op(rng, w)
            ops.append(d)
        nt = rng.choice([2, 2, 3]) if threads else 1
        for k, d in enumerate(ops):
            d["t"] = rng.randrange(nt)
        if threads and rng.random() < self.p_mirror:
            ops = ops[:max(1, n // nt)]
            for d in ops:
                d["t"] = 0
            ops = [dict(wd.mirror(json.loads(json.dumps(d)), t, w), t=t)
                   for t in range(nt) for d in ops]
            n = len(ops)
        sc = {"world": w, "ops": ops, "threads": threads, "sched_seed": rng.getrandbits(32),
              "profile": rng.choice(["fine", "medium", "mix", "coarse", "long", "hot", "hot", "hot", "hot"]),
              "opcode": threads and rng.random() < self.p_opcode, "inject": [], "scribble": [], "io": []}
        if threads:
            self.own_setters(sc)
        else:
            for k in range(n):
                if rng.random() < self.p_inject:
                    for _ in range(rng.choice(self.shots)):
                        line = rng.random() < 0.6
                        sc["inject"].append({"i": k, "exc": rng.choice(self.exc_for(ops[k])), "line": line,
                                             "hot": line and rng.random() < self.p_hot,
                                             "held": rng.random() < 0.7, "frac": round(
                            rng.random() ** (1 if line else rng.choice([1, 3])), 4)})
                elif rng.random() < self.p_io:
                    sc["io"].append({"i": k, "faults": [self.gen_fault(rng)
                                                        for _ in range(rng.choice([1, 1, 1, 2]))]})
                elif rng.random() < self.p_scribble and ops[k]["op"] not in wd.VIEWS:
                    sc["scribble"].append(k)
        return sc

    def gen_fault(self, rng):
        on = rng.choices(list(self.io_weights), list(self.io_weights.values()))[0]
        return {"on": on, "at": round(rng.random(), 4), "kind": rng.choice(self.io_kinds[on]),
                "frac": round(rng.random(), 3), "seed": rng.randrange(1000)}

    def own_setters(self, sc):
        """A survey with a setter is used by one thread only."""
        wd = self.wd
        own = {}
        for d in sc["ops"]:
            for j in touched(wd, d):
                own.setdefault(j, d["t"])
        for d in sc["ops"]:
            ts = [own[s] for s in needed(d) if s in own]
            if ts:
                d["t"] = ts[0]
        bad = [d for d in sc["ops"]
               if any(s in own and own[s] != d["t"] for s in needed(d))]
        for d in bad:
            if "o" in d:
                d["o"] = d["s"]
                if d["s"] in own:
                    d["t"] = own[d["s"]]

    def valid(self, sc):
        return bool(sc["ops"]) or not sc["ops"]

    def finalize(self, sc, res):
        if sc.get("threads") and res.get("decisions"):
            sc["schedule"] = res["decisions"]
        return sc

    def candidates(self, sc):
        # dropping an op must renumber injections / scribbles
        n = len(sc["ops"])
        size = max(1, n // 2)
        while n and size >= 1:
            for a in range(0, n, size):
                keep = [i for i in range(n) if not a <= i < a + size]
                m = {o: k for k, o in enumerate(keep)}
                c = dict(sc, ops=[sc["ops"][i] for i in keep],
                         inject=[dict(j, i=m[j["i"]]) for j in sc["inject"] if j["i"] in m],
                         scribble=[m[j] for j in sc["scribble"] if j in m],
                         io=[dict(j, i=m[j["i"]]) for j in sc.get("io", []) if j["i"] in m])
                if c["ops"] or True:
                    yield c
            size //= 2
        for j, x in enumerate(sc.get("io", [])):
            if len(x["faults"]) > 1:
                for k in range(len(x["faults"])):
                    y = dict(x, faults=x["faults"][:k] + x["faults"][k + 1:])
                    yield dict(sc, io=sc["io"][:j] + [y] + sc["io"][j + 1:])
        for k in ("inject", "scribble", "io"):
            for j in range(len(sc.get(k, ()))):
                yield dict(sc, **{k: sc[k][:j] + sc[k][j + 1:]})
        sch = sc.get("schedule")
        if sch:
            size = max(1, len(sch) // 2)
            while size >= 1:
                for a in range(0, len(sch), size):
                    yield dict(sc, schedule=sch[:a] + sch[a + size:])
                size //= 2
        if sc.get("threads"):
            c = dict(sc, threads=False)
            c.pop("schedule", None)
            yield c
        yield from self.simplify(sc)

    def simplify(self, sc):
        yield from self.wd.simplify(sc, needed)

    # ---- judging
    def run(self, sc):
        wd = self.wd
        w = sc["world"]
        ops = sc["ops"]
        inj = {j["i"] for j in sc.get("inject", [])}
        execs = 0
        cache, refs = {}, []

        def setters_before(i, surveys):
            # order within the thread that owns the survey == list order
            out, want = [], set(surveys)
            for x in reversed(ops[:i]):
                if want.intersection(touched(wd, x)):
                    out.insert(0, x)
                    want.update(needed(x))
            return out

        events, iocounts = {}, {}
        for i, d in enumerate(ops):
            st = [strip(x) for x in setters_before(i, needed(d))]
            key = json.dumps([st, strip(d), i in inj], sort_keys=True)
            if key not in cache:
                cache[key] = forkrun.call(ref_op, self.mod, w, st, strip(d), i in inj)
                execs += 1
            refs.append(cache[key])
            events[i] = [cache[key].get(k, v) for k, v in (("events", 0), ("firsts", []), ("hots", ([], [])))]
            iocounts[i] = cache[key].get("io", {})
        states = [None] * wd.count(w)
        moved = {j for d in ops for j in touched(wd, d)}
        plain = [s for s in wd.plain(w) if s not in moved]
        if plain:
            for s, x in zip(plain, forkrun.call(ref_plain, self.mod, w, plain)):
                states[s] = x
            execs += 1
        for s in range(wd.count(w)):
            if states[s] is not None:
                continue
            st = [strip(x) for x in setters_before(len(ops), [s])]
            states[s] = forkrun.call(ref_state, self.mod, w, s, st)
            execs += 1
        heads = forkrun.call(ref_shared, self.mod, w)
        r = forkrun.call(main_child, self.mod, sc, events, iocounts)
        execs += 2
        viol = []

        def bad(key, detail):
            viol.append({"key": key, "detail": detail})

        probes, faults = {}, {}
        sig = hashlib.sha256()
        if "build" in r:
            # the world cannot be built: must be just as impossible survey by survey
            if not any("build" in s for s in states):
                bad("build", f"building the surveys together raised {r['build']}, "
                             "each alone builds")
            return self._result(sc, viol, r, probes, faults, sig, execs, False)
        for s, ref in enumerate(states):
            if "build" in ref:
                bad("build", f"survey {s} builds after the others but alone raised {ref['build']}")
        if viol:
            return self._result(sc, viol, r, probes, faults, sig, execs, True)
        d0 = None
        for s, ref in enumerate(states):
            for k, name, exc in ref["rejected"]:
                e = diff(ref["states"][k + 1], ref["states"][k], f"survey{s}")
                probes["setter_rejected"] = probes.get("setter_rejected", 0) + 1
                if e:
                    bad(f"rejected:{name}", f"{name} raised {exc} and yet changed the survey: {e}")
        for s, ref in enumerate(states):
            d0 = d0 or diff(r["snaps"][0]["objs"][s], ref["states"][0], f"survey{s}")
        d0 = d0 or diff(r["snaps"][0]["shared"], heads, "header")
        if d0:
            bad("built-together", f"surveys built in one process differ from each built alone: {d0}")
            return self._result(sc, viol, r, probes, faults, sig, execs, True)
        died = r["rec"][len(ops):]
        if any("StepLimit" in str(x) for x in died):
            # long even when each operation runs alone?
            alone = 0
            for d in ops:
                alone += forkrun.call(ref_op, self.mod, w, [], strip(d), True).get("events", 0)
                if alone * 18 > 8_000_000:
                    probes["too_long"] = 1
                    return self._result(sc, viol, r, probes, faults, sig, execs, False)
        for x in died:
            bad("thread-died", str(x))
        for i, d in enumerate(ops):
            got, want = r["rec"][i], refs[i]["out"] if "out" in refs[i] else None
            if want is None:
                continue
            label = f"op {i} {d['op']} on survey {d['s']}"
            if want[:2] == ("raise", "ArgumentChanged"):
                bad(f"argument:{d['op']}", f"{label}: {want[2]}")
                continue
            if got is None:
                bad("no-result", f"{label}: thread ended before this operation")
                continue
            if got[0] == "io":
                _, fired, first, again, mid = got
                for f in fired:
                    faults[f[2]] = faults.get(f[2], 0) + 1
                self.judge_io(sc, i, fired, first, mid, want, states, bad, label)
                got = again
                what = "retry after storage faults"
            elif got[0] == "injected":
                for fired, exc, first, mid, again in got[1]:
                    if fired:
                        faults[exc] = faults.get(exc, 0) + 1
                        self.judge_mid(sc, i, exc, mid, states, bad, label)
                    if fired and first[0] == "ok":
                        e = None
                        if exc == "KeyboardInterrupt":
                            bad(f"swallowed:{d['op']}", f"{label}: user interrupt swallowed")
                        else:
                            e = diff(list(first), list(want), d["op"])
                        if e:
                            bad(f"degraded:{d['op']}",
                                f"{label}: allocation failure inside it was absorbed and the answer changed: {e}")
                    got = again
                    if self.same(got, want, d["op"]):
                        break
                what = "retry after interruption" if fired else "repeat"
            else:
                what = "result"
            e = self.same(got, want, d["op"])
            if e:
                bad(f"{self.result_key(sc, d)}", f"{label}: {what} differs from the operation run alone: {e}")
        for k, snap in enumerate(r["snaps"][1:]):
            done = ops if sc.get("threads") else ops[:k + 1]
            lab = "after all threads" if sc.get("threads") else f"after op {k} {ops[k]['op']}"
            for s in range(wd.count(w)):
                m = sum(1 for x in done if s in touched(wd, x))
                e = diff(snap["objs"][s], states[s]["states"][m], f"survey{s}")
                if e:
                    bad(f"state:{'threads' if sc.get('threads') else ops[k]['op']}", f"{lab}: {e}")
                    break
            e = diff(snap["shared"], heads, "header")
            if e:
                bad(f"header:{'threads' if sc.get('threads') else ops[k]['op']}", f"{lab}: {e}")
            if viol:
                break
        self.extra(sc, refs, r, bad, probes)
        if r["preempt"]:
            probes["preempted"] = 1
        if any(x[0] == "raise" for x in r["rec"] if x):
            probes["failing_call_in_history"] = 1
        if sc.get("scribble"):
            probes["results_overwritten"] = 1
        return self._result(sc, viol, r, probes, faults, sig, execs, True)

    def judge_mid(self, sc, i, exc, mid, states, bad, label):
        """What an interrupted call worked on is as it was; what it was to
        change is as it was or completely changed."""
        wd, d = self.wd, sc["ops"][i]
        for j, now in mid.items():
            m = sum(1 for x in sc["ops"][:i] if j in touched(wd, x))
            e = diff(now, states[j]["states"][m], f"obj{j}")
            if e and j in touched(wd, d):
                e = self.partial(d, now, states[j]["states"][m], states[j]["states"][m + 1], e)
            if e:
                bad(f"midway:{d['op']}", f"{label}: {exc} inside it left an object changed: {e}")

    def partial(self, d, now, old, new, e):
        if isinstance(now, dict) and isinstance(now.get("bytes"), bytes) and isinstance(new.get("bytes"), bytes):
            return None if new["bytes"].startswith(now["bytes"]) else e
        return e if diff(now, new, "new") else None

    def judge_io(self, sc, i, fired, first, mid, want, states, bad, label):
        """Exact, or an error that a fired fault explains; files old, new or a prefix."""
        wd, d = self.wd, sc["ops"][i]
        hard = [f for f in fired if f[2] in fsim.HARD]
        done = first[0] in ("ok", "returned")
        if first[0] == "ok" or (first[0] == "raise" and not hard):
            e = self.same(first, want, d["op"])
            if e:
                bad(f"io-result:{d['op']}", f"{label}: with {fired or 'no fault fired'} the result differs: {e}")
        for j in atomic(wd, d):
            m = sum(1 for x in sc["ops"][:i] if j in touched(wd, x))
            e = diff(mid[j], states[j]["states"][m], f"obj{j}")
            if not done and e and diff(mid[j], states[j]["states"][m + 1], "new"):
                bad(f"io-partial:{d['op']}", f"{label}: with {fired} the call failed and left the object "
                    f"half changed: {e}")
        for j, now in mid.items():
            if j in atomic(wd, d):
                continue
            m = sum(1 for x in sc["ops"][:i] if j in touched(wd, x))
            old, new = states[j]["states"][m]["bytes"], states[j]["states"][m + 1]["bytes"]
            b = now["bytes"]
            if done and first[0] == "returned" and b != new:
                bad(f"io-lost:{d['op']}", f"{label}: the call returned and the process died: file holds "
                    f"{_show(b)}, not {_show(new)}")
            elif done and b != new:
                bad(f"io-silent:{d['op']}", f"{label}: with {fired} the call succeeded but the file holds "
                    f"{_show(b)}, not {_show(new)}")
            elif not done and b != old and not (
                    b is not None and new is not None and new.startswith(b)):
                bad(f"io-torn:{d['op']}", f"{label}: with {fired} the file holds {_show(b)}: neither the "
                    f"old content nor a prefix of the new")
            elif not done and not hard and b != old:
                bad(f"io-touched:{d['op']}", f"{label}: the call failed and yet changed the file")
            elif not done and b != old and hard and all(
                    f[5] == 0 and (f[0] in ("read", "list") or f[0] == "open" and f[4] == 0) for f in hard):
                bad(f"io-touched:{d['op']}", f"{label}: {fired} before anything was written, "
                    "and yet the file changed")

    def extra(self, sc, refs, r, bad, probes):
        pass

    def result_key(self, sc, d):
        return f"result:{d['op']}"

    def same(self, got, want, name):
        return diff(list(got)[:2], list(want)[:2], name)

    def _result(self, sc, viol, r, probes, faults, sig, execs, nontrivial):
        if sc.get("threads"):
            faults["preemption"] = r.get("preempt", 0)
        sig.update(repr([strip(d)["op"] for d in sc["ops"]]).encode())
        sig.update(repr((r.get("digest"), r.get("fired"),
                         self.wd.sig(sc["world"]))).encode())
        return {"violations": viol, "faults": faults, "sig": sig.hexdigest(),
                "nontrivial": nontrivial and len(sc["ops"]) > 0, "execs": execs,
                "steps": r.get("steps", 0), "preempt": r.get("preempt", 0),
                "decisions": r.get("decisions"), "probes": probes,
                "digest": hashlib.sha256(repr((r.get("digest"), r.get("fired"), rnd(r.get("rec")))
                                              ).encode()).hexdigest()}


def rnd(x):
    """Stable text of a recorded outcome (floats rounded)."""
    if isinstance(x, float):
        return f"{x:.6g}"
    if isinstance(x, np.ndarray):
        return [rnd(v) for v in np.asarray(x).ravel().tolist()][:50]
    if isinstance(x, dict):
        return {k: rnd(v) for k, v in sorted(x.items())}
    if isinstance(x, (list, tuple)):
        return [rnd(v) for v in x]
    return x


def _show(b):
    return "nothing" if b is None else f"{len(b)} bytes {b[-30:]!r}"


def strip(d):
    return {k: v for k, v in d.items() if k != "t"}
