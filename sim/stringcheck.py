"""String, hole and BHA build-up against an executable reference model: plain
lists of sections.  Rejected calls, interrupted calls, several strings under
construction at once, and readers of finished strings."""
import hashlib
import json
import random

from . import bootstrap, forkrun
from .compare import canon, diff
from .driver import Check
from .sched import Sim, run_single

CLS = ("String", "WellBore", "BHA")
# values a rounding error away from an end
NEAR = (1e-9, 2e-6, 4e-4, 0.003, 0.04, -1e-9, -2e-6, -4e-4, -0.003, -0.04)
NEED = {"WellBore": ("id", "coeff_friction_sliding")}


# ------------------------------------------------------------------- model

class Model:
    def __init__(self, spec):
        self.spec = spec
        self.secs = []                                    # shallow to deep
        self.complete = False

    def state(self):
        return {"sections": [dict(s) for s in self.secs], "complete": self.complete}

    def add(self, kw):
        """New model state or None when the call must be rejected."""
        s = self.spec
        kw = dict(kw)
        if any(k not in kw for k in NEED.get(s["cls"], ())):
            return None
        if s["cls"] == "BHA":
            kw.setdefault("density", 7.85)
        m = Model(s)
        m.complete = self.complete
        if s["method"] == "top_down":
            if "bottom" not in kw or not isinstance(kw["bottom"], (int, float)):
                return None
            if kw["bottom"] > s["bottom"]:
                return None
            top = self.secs[-1]["bottom"] if self.secs else s["top"]
            if not top < kw["bottom"]:
                return None                               # a section has a length
            m.secs = self.secs + [{"top": top, **kw}]
        else:
            bottom = self.secs[0]["top"] if self.secs else s["bottom"]
            if kw.get("length"):
                if not isinstance(kw["length"], (int, float)):
                    return None
                top = max(bottom - kw["length"], s["top"])
            else:
                top = kw.get("top") or s["top"]
            if not isinstance(top, (int, float)):
                return None
            sec = {"top": top, "bottom": bottom, **kw}
            if not s["top"] <= sec["top"] < sec["bottom"] or sec["bottom"] != bottom:
                return None
            m.secs = [sec] + self.secs
        m.complete = m.complete or (m.secs[0]["top"] == s["top"] and m.secs[-1]["bottom"] == s["bottom"])
        return m

    def depth(self, md):
        s = self.spec
        if not s["top"] < md <= s["bottom"]:
            return None
        out, bottom = [], md
        for q in reversed(self.secs):
            top = max(bottom - (q["bottom"] - q["top"]), s["top"])
            out.insert(0, dict({k: v for k, v in q.items() if k not in ("length",)}, top=top, bottom=bottom))
            bottom = top
            if top == s["top"]:
                break
        return out


def obs_string(x):
    return {"sections": [canon(x.sections[k]) for k in range(len(x.sections))]
            if list(x.sections) == list(range(len(x.sections))) else ["keys", canon(list(x.sections))],
            "complete": x.complete}


def nolen(secs):
    return [{k: v for k, v in s.items() if k != "length"} for s in secs]


# ------------------------------------------------------------------ running

def do(objs, d):
    x = objs[d["o"]]
    if d["op"] == "add":
        x.add_section(**json.loads(json.dumps(d["kw"])))
        return None
    return nolen(obs_string(x.depth(d["md"]))["sections"])


def tryit(f):
    try:
        return ["ok", f()]
    except Exception as e:                                # noqa
        return ["raise", type(e).__name__, str(e)[:120]]


def child(sc):
    bootstrap.load()
    import welleng.architecture as ar
    objs = [getattr(ar, s["cls"])(s["name"], s["top"], s["bottom"], method=s["method"])
            for s in sc["strings"]]
    rec = [None] * len(sc["ops"])
    if sc["threads"]:
        def body(t):
            def f():
                for i, d in enumerate(sc["ops"]):
                    if d["t"] == t:
                        rec[i] = [tryit(lambda: do(objs, d))]
            return f
        sim = Sim([body(t) for t in (0, 1)], rng=random.Random(sc["seed"]), decisions=sc.get("schedule"),
                  profile=sc["profile"], opcode=sc["opcode"])
        sim.run()
        return {"rec": rec, "final": [obs_string(x) for x in objs], "steps": sim.steps,
                "preempt": sim.preemptions, "decisions": sim.decisions, "digest": sim.digest()}
    fired = 0
    for i, d in enumerate(sc["ops"]):
        if d.get("inject"):
            r, n, f = run_single(lambda: do(objs, d), inject=(d["inject"][0], d["inject"][1]))
            fired += bool(f)
            out = ["ok", r[1]] if r[0] == "ok" else ["raise", type(r[1]).__name__, str(r[1])[:120]]
            rec[i] = [out, bool(f), [obs_string(x) for x in objs]]
        else:
            rec[i] = [tryit(lambda: do(objs, d)), False, [obs_string(x) for x in objs]]
    return {"rec": rec, "final": [obs_string(x) for x in objs], "steps": 0, "preempt": 0,
            "decisions": None, "digest": ""}


class StringCheck(Check):
    id = "P19"
    rule = ("one run = 1-3 strings, holes or BHAs built section by section (3-12 calls: valid, "
            "rejected, interrupted at a random line) with depth queries in between, sequentially or "
            "from two threads; every call's effect is compared with a list-based reference model; "
            "distinct = classes, methods, calls and outcomes")
    quick_runs = 4000
    thorough_runs = 120000
    real = "welleng.architecture"
    stub = "OS thread scheduling"
    probes = ("rejected_call", "KeyboardInterrupt", "completed", "preempted", "depth_query")

    def gen(self, rng, i):
        strings = []
        for k in range(rng.randint(1, 3)):
            top = rng.choice([0, 0, 0, 100.0])
            strings.append({"cls": rng.choice(CLS), "name": f"s{k}", "top": top,
                            "bottom": round(top + rng.uniform(500, 4000), 1),
                            "method": rng.choice(["top_down", "bottom_up"])})
        models = [Model(s) for s in strings]
        threads = rng.random() < 0.2
        ops = []
        for _ in range(rng.randint(3, 12)):
            o = rng.randrange(len(strings))
            m, s = models[o], strings[o]
            done = bool(m.secs) and m.secs[0]["top"] == s["top"] and m.secs[-1]["bottom"] == s["bottom"]
            if m.secs and (done or rng.random() < 0.2):
                d = {"op": "depth", "o": o, "md": rng.choice([s["bottom"], round(
                    rng.uniform(s["top"] + 1, s["bottom"]), 1), s["bottom"] + 50.0, s["top"]])}
            else:
                kw = {"od": round(rng.uniform(0.1, 0.3), 3)}
                if s["cls"] == "WellBore" and rng.random() < 0.9:
                    kw.update(id=0.3, coeff_friction_sliding=round(rng.uniform(0.1, 0.4), 2))
                if rng.random() < 0.2:
                    kw["density"] = rng.choice([7.0, 2.7, 0.0])
                if rng.random() < 0.2:
                    kw["grade"] = rng.choice(["P110", None, ""])
                r = rng.random()
                if s["method"] == "top_down":
                    t = m.secs[-1]["bottom"] if m.secs else s["top"]
                    kw["bottom"] = s["bottom"] if r < 0.3 else round(rng.uniform(t, s["bottom"]), 1)
                    if rng.random() < 0.25:
                        kw["bottom"] = rng.choice([s["bottom"] + 10.0, "deep", None])
                        if kw["bottom"] is None:
                            del kw["bottom"]
                    elif kw["bottom"] <= t and rng.random() < 0.7:
                        continue                          # the rest: no length, or upside down
                    elif rng.random() < 0.15:
                        kw["bottom"] = s["bottom"] + rng.choice(NEAR)
                else:
                    b = m.secs[0]["top"] if m.secs else s["bottom"]
                    if r < 0.55:
                        kw["length"] = round(rng.uniform(10, 1.2 * (b - s["top"])), 1)
                    elif r < 0.75:
                        kw["top"] = round(rng.uniform(s["top"] + 1, b), 1)
                        if kw["top"] >= b and rng.random() < 0.7:
                            continue
                    elif r < 0.85:
                        kw.update(rng.choice([{"length": "long"}, {"top": s["top"] - 20.0}, {"length": -30.0},
                                              {"top": b + 5.0}, {"top": b}, {"bottom": b - 1.0}, {"top": 0},
                                              {"length": b - s["top"] + rng.choice(NEAR)},
                                              {"top": s["top"] + rng.choice(NEAR)}]))
                d = {"op": "add", "o": o, "kw": kw}
                n = m.add(kw)
                if n:
                    models[o] = n
            d["t"] = o % 2
            if not threads and rng.random() < 0.15:
                d["inject"] = [rng.randint(1, 40), rng.choice(["KeyboardInterrupt", "MemoryError"])]
            ops.append(d)
        return {"strings": strings, "ops": ops, "threads": threads, "seed": rng.getrandbits(32),
                "profile": rng.choice(["fine", "medium", "hot"]), "opcode": rng.random() < 0.3}

    def finalize(self, sc, res):
        if sc["threads"] and res.get("decisions"):
            sc["schedule"] = res["decisions"]
        return sc

    def run(self, sc):
        r = forkrun.call(child, sc)
        viol, probes, faults = [], {}, {}
        sig = hashlib.sha256(repr([(s["cls"], s["method"]) for s in sc["strings"]]).encode())

        def bad(key, detail):
            viol.append({"key": key, "detail": detail})

        models = [Model(s) for s in sc["strings"]]
        for i, d in enumerate(sc["ops"]):
            if r["rec"][i] is None:
                bad("no-result", f"call {i} never ran")
                break
            got = r["rec"][i][0]
            fired = len(r["rec"][i]) > 1 and r["rec"][i][1]
            m = models[d["o"]]
            lab = f"call {i} {d['op']} {d.get('kw', d.get('md'))} on {sc['strings'][d['o']]}"
            sig.update(repr((d["op"], d["o"], got[0], fired)).encode())
            if d["op"] == "add":
                n = m.add(d["kw"])
                if fired:
                    faults[d["inject"][1]] = faults.get(d["inject"][1], 0) + 1
                    if got[0] == "ok" and n is None or got[0] == "ok" and d["inject"][1] == "KeyboardInterrupt":
                        bad("swallowed", f"{lab}: interruption swallowed")
                    # all or nothing
                    now = r["rec"][i][2][d["o"]]
                    opts = [n] if got[0] == "ok" and n else [m] + ([n] if n else [])
                    hit = [x for x in opts if diff(now, canon(x.state()), "") is None]
                    if not hit:
                        bad("interrupted", f"{lab}: interrupted call left a half-added section: {now}")
                        break
                    models[d["o"]] = hit[-1] if got[0] == "ok" else hit[0]
                elif n is None:
                    probes["rejected_call"] = 1
                    if got[0] == "ok":
                        bad("accepted", f"{lab}: accepted, must be rejected")
                else:
                    if got[0] != "ok":
                        bad("refused", f"{lab}: valid section refused: {got[1:]}")
                    models[d["o"]] = n
                    if n.complete:
                        probes["completed"] = 1
            else:
                want = m.depth(d["md"])
                probes["depth_query"] = 1
                if fired:
                    faults[d["inject"][1]] = faults.get(d["inject"][1], 0) + 1
                    if got[0] == "ok" and d["inject"][1] == "KeyboardInterrupt":
                        bad("swallowed", f"{lab}: interruption swallowed")
                elif want is None:
                    if got[0] == "ok":
                        bad("accepted", f"{lab}: depth out of range accepted")
                else:
                    e = diff(got, canon(["ok", want]), "depth")
                    if e:
                        bad("depth", f"{lab}: {e}")
            if not sc["threads"] and not viol:
                for k, x in enumerate(models):
                    e = diff(r["rec"][i][2][k], canon(x.state()), f"string{k}")
                    if e:
                        bad("state", f"after {lab}: {e}")
                        break
            if viol:
                break
        if not viol:
            for k, x in enumerate(models):
                e = diff(r["final"][k], canon(x.state()), f"string{k}")
                if e:
                    bad("final", f"after all calls: {e}")
        if r["preempt"]:
            probes["preempted"] = 1
            faults["preemption"] = r["preempt"]
        sig.update(r["digest"].encode())
        return {"violations": viol, "faults": faults, "probes": probes, "sig": sig.hexdigest(),
                "nontrivial": len(sc["ops"]) > 0, "execs": 1, "steps": r["steps"],
                "preempt": r["preempt"], "decisions": r["decisions"],
                "digest": hashlib.sha256(repr((r["digest"], r["rec"])).encode()).hexdigest()}

    def simplify(self, sc):
        if sc["threads"]:
            c = dict(sc, threads=False)
            c.pop("schedule", None)
            yield c
        for i, d in enumerate(sc["ops"]):
            if d.get("inject"):
                c = {k: v for k, v in d.items() if k != "inject"}
                yield dict(sc, ops=sc["ops"][:i] + [c] + sc["ops"][i + 1:])
