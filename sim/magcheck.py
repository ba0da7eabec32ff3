"""Shared machinery of the two magnetic-service checks (headers, map parameters)."""
import hashlib
import json
import math
import random

from . import bootstrap, clock, forkrun, net
from .driver import Check
from .sched import Sim

REF = (51.4934, 0.0098, 0.0)
DOC_DEFAULTS = {"b_total": 50_000.0, "dip": 70.0, "declination": 0.0}
PROJ = {"EPSG:23031": (588319.02, 5770571.03), "EPSG:32631": (588225.9, 5770360.5),
        "EPSG:32632": (400000.0, 6700000.0), "EPSG:28992": (120000.0, 480000.0),
        "EPSG:25831": (500000.0, 6000000.0)}


def gen_script(rng):
    mode = rng.random()
    if mode < 0.12:
        return ["ok"]
    n = rng.randint(1, 6)
    s = [rng.choice(net.KINDS) if rng.random() < 0.8 else "ok" for _ in range(n)]
    if rng.random() < 0.15:
        s[rng.randrange(n)] = rng.choice(net.INTERRUPTS)
    return s


def gen_clock(rng):
    d = f"{rng.randint(1996, 2060)}-{rng.randint(1, 12):02d}-{rng.randint(1, 28):02d}"
    t = rng.choice(["00:00:00", "23:59:59", "12:34:56", "23:59:58"])
    jumps = [rng.choice([0, 0, 1, 2, 86400, -86400, 3600 * 24 * 400, -5])
             for _ in range(rng.randint(0, 4))]
    return {"start": f"{d}T{t}", "jumps": jumps}


def gen_date(rng):
    return rng.choice([None, "2019-06-30", "1985-01-02", "2024-02-29", "2031-12-31",
                       "2000-01-01", "2023-07-15"])


def gen_header_build(rng, k):
    kw = {}
    full = rng.random()
    for name, lo, hi in (("b_total", 20000, 66000), ("dip", -89, 89), ("declination", -30, 30)):
        p = 0.4 if full < 0.8 else (1.0 if full < 0.9 else 0.0)
        if rng.random() < p:
            kw[name] = round(rng.uniform(lo, hi), 3)
            if rng.random() < 0.08:
                kw[name] = 0.0 if name != "b_total" else 1.0
    kw["latitude"] = round(rng.uniform(-89, 89), 4)      # unique: identifies the caller
    if rng.random() < 0.8:
        kw["longitude"] = round(rng.uniform(-179, 179), 4)
    if rng.random() < 0.5:
        kw["altitude"] = round(rng.uniform(-500, 4000), 1)
    d = gen_date(rng)
    if d:
        kw["survey_date"] = d
    if rng.random() < 0.3:
        kw["deg"] = False
        for n in ("dip", "declination"):
            if n in kw:
                kw[n] = round(math.radians(kw[n]), 6)
    if rng.random() < 0.5:
        kw["convergence"] = round(rng.uniform(-3, 3), 3) if kw.get("deg", True) else 0.01
    if rng.random() < 0.3:
        kw["name"] = f"well {k}"
    if rng.random() < 0.25:
        kw["mag_defaults"] = {"b_total": 48123.5 + k, "dip": 61.25, "declination": 2.5}
    for n, v in (("G", 9.81234), ("earth_rate", 0.2625), ("grid_scale_factor", 0.99987),
                 ("vertical_inc_limit", 0.02), ("depth_unit", "feet"), ("surface_unit", "feet"),
                 ("vertical_section_azimuth", rng.choice([0.0, 45.5, -30.25, 359.0, 361.5]))):
        if rng.random() < 0.15:
            kw[n] = v
    if rng.random() < 0.3:
        kw["azi_reference"] = rng.choice(["true", "magnetic", "grid"])
    return {"kind": "header", "kw": kw}


def gen_param_build(rng, k):
    proj = rng.choice(sorted(PROJ))
    x, y = PROJ[proj]
    kw = {"x": round(x + rng.uniform(-5e4, 5e4), 2), "y": round(y + rng.uniform(-5e4, 5e4), 2)}
    if rng.random() < 0.4:
        kw["altitude"] = rng.choice([0, 12.5, 800.0])
    d = gen_date(rng)
    if d:
        kw["date"] = d
    return {"kind": "params", "proj": proj, "kw": kw, "shared": rng.random() < 0.5}


def child(sc):
    """Executes the scenario; returns the record the oracle judges."""
    we = bootstrap.load()
    from welleng import survey as S
    ck = clock.activate(clock.Clock(sc["clock"]["start"], sc["clock"]["jumps"]))
    svc = net.activate(net.Service(sc["script"], sc["param"],
                                   sc.get("units", "deg (down)")))
    calcs = {}

    spans = [[]] * len(sc["builds"])

    def build(b, i):
        def f():
            if b.get("gap"):
                ck.advance(b["gap"])
            first = len(ck.shown) - 1
            try:
                return one(b)
            finally:
                spans[i] = sorted({d.strftime("%Y-%m-%d") for d in ck.shown[first:]})

        def one(b):
            if b["kind"] == "header":
                kw = json.loads(json.dumps(b["kw"]))
                md = kw.get("mag_defaults")
                h = S.SurveyHeader(**kw)
                g = lambda n: getattr(h, n, "<absent>")
                return {n: g(n) for n in (
                    "name", "latitude", "longitude", "altitude", "survey_date", "b_total",
                    "dip", "declination", "convergence", "azi_reference", "G", "earth_rate",
                    "vertical_section_azimuth", "grid_scale_factor", "depth_unit",
                    "surface_unit", "vertical_inc_limit")} | {"defaults_arg": md}
            c = calcs.get(b["proj"]) if b["shared"] else None
            if c is None:
                c = calcs[b["proj"]] = S.SurveyParameters(b["proj"])
            return dict(c.get_factors_from_x_y(**b["kw"]))
        return f

    rec = []
    if sc.get("threads"):
        sim = Sim([build(b, i) for i, b in enumerate(sc["builds"])], rng=random.Random(sc["sched_seed"]),
                  decisions=sc.get("schedule"), profile="fine")
        marks = 0
        res = sim.run()
        for b, r in zip(sc["builds"], res):
            rec.append(r if r[0] == "ok" else ("raise", type(r[1]).__name__, str(r[1])[:200]))
        steps, pre, dec, dig = sim.steps, sim.preemptions, sim.decisions, sim.digest()
        windows = [(0, len(svc.requests))] * len(rec)
    else:
        windows = []
        for i, b in enumerate(sc["builds"]):
            a = len(svc.requests)
            try:
                rec.append(("ok", build(b, i)()))
            except BaseException as e:                    # noqa
                rec.append(("raise", type(e).__name__, str(e)[:200]))
            windows.append((a, len(svc.requests)))
        steps, pre, dec, dig = 0, 0, None, ""
    return {"rec": rec, "requests": svc.requests, "fired": svc.fired, "windows": windows,
            "dates": spans,
            "sim_s": abs(ck.slept), "steps": steps, "preempt": pre, "decisions": dec,
            "digest": dig}


def proj_ref(sc):
    """Reference projection values straight from pyproj, never from the library."""
    from pyproj import CRS, Proj
    out = []
    for b in sc["builds"]:
        if b["kind"] != "params":
            out.append(None)
            continue
        p = Proj(CRS(b["proj"]))
        lon, lat = p(b["kw"]["x"], b["kw"]["y"], inverse=True)
        f = p.get_factors(lon, lat)
        out.append((lat, lon, f.meridian_convergence, f.meridional_scale))
    return out


def close(a, b):
    try:
        return abs(float(a) - float(b)) <= 1e-9 * max(1.0, abs(float(b)))
    except (TypeError, ValueError):
        return False


def num(q, k):
    try:
        return float(q.get(k))
    except (TypeError, ValueError):
        return None


def own_requests(b, loc, r, w):
    """Requests made for this build, in order (callers are told apart by latitude)."""
    return [x for x in r["requests"][w[0]:w[1]] if close(num(x[1], "latitude"), loc[0])]


def told(b, loc, r, w):
    """The requests whose answer this build may use: its own, or if it made
    none (it may remember an answer to the same question) the earlier ones."""
    return own_requests(b, loc, r, w) or own_requests(b, loc, r, (0, w[1]))


def allowed_answers(reqs, loc, date, dates):
    """Usable complete answers this build may take its values from."""
    out, tried = [], False
    today_ok = set(dates)
    for kind, q, delivered in reqs:
        here = (close(num(q, "latitude"), loc[0]) and close(num(q, "longitude"), loc[1])
                and close(num(q, "altitude") if q.get("altitude") is not None else loc[2], loc[2]))
        d = q.get("date")
        if here and delivered:
            if d == date or (tried and (d is None or d in today_ok)):
                out.append(net.field(q.get("latitude"), q.get("longitude"),
                                     q.get("altitude"), d))
                break                                     # first usable answer decides
        if d == date:
            tried = True
    return out


class MagCheck(Check):
    lists = ("builds", "script", "schedule")
    kinds = ()
    real = ("welleng header / map-parameter construction, magnetic_field_calculator client "
            "(URL building, JSON decoding, error mapping), pyproj")
    stub = "HTTP transport and the remote field service (urllib.request.urlopen), wall clock"
    assumptions = ["the service's published values are modelled by a hash of "
                   "(latitude, longitude, altitude, date)"]

    def valid(self, sc):
        return bool(sc["builds"]) and bool(sc["script"])

    def gen(self, rng, i):
        k = rng.choice([1, 1, 2, 2, 3, 4])
        sc = {"builds": [self.gen_build(rng, j) for j in range(k)],
              "script": gen_script(rng), "param": rng.randint(0, 400),
              "clock": gen_clock(rng), "threads": k > 1 and rng.random() < 0.35,
              "sched_seed": rng.getrandbits(32),
              "units": rng.choice(["deg (down)", "deg (down)", "deg (up)"])
              if self.id == "P02" else "deg (down)"}
        for j, b in enumerate(sc["builds"]):
            if b["kind"] == "header" and not sc["threads"] and rng.random() < 0.15:
                n, v = rng.choice([("latitude", 90.0), ("longitude", 180.0), ("altitude", 0.0)])
                b["kw"][n] = rng.choice([0, 0.0, v, -v])
            if rng.random() < 0.45:
                b["gap"] = rng.choice([1, 40, 3600, 86400, 86400 * 31])
            if j and not sc["threads"] and rng.random() < 0.35:
                a = sc["builds"][rng.randrange(j)]        # the same place again, in other respects another question
                for n in ("latitude", "longitude", "x", "y", "altitude"):
                    if n == "altitude" and rng.random() < 0.5:
                        continue
                    b["kw"].pop(n, None)
                    if n in a["kw"]:
                        b["kw"][n] = a["kw"][n]
                if "proj" in a:
                    b["proj"] = a["proj"]
        return sc

    def finalize(self, sc, res):
        if sc.get("threads") and res.get("decisions"):
            sc["schedule"] = res["decisions"]
        return sc

    def simplify(self, sc):
        if sc.get("threads"):
            c = dict(sc, threads=False)
            c.pop("schedule", None)
            yield c
        if sc["clock"]["jumps"]:
            yield dict(sc, clock=dict(sc["clock"], jumps=[]))
        for j, b in enumerate(sc["builds"]):
            if b.get("gap"):
                yield dict(sc, builds=sc["builds"][:j] + [{k: v for k, v in b.items() if k != "gap"}]
                           + sc["builds"][j + 1:])
            for n in sorted(b["kw"]):
                if n in ("latitude", "x", "y"):
                    continue
                kw = {k: v for k, v in b["kw"].items() if k != n}
                yield dict(sc, builds=sc["builds"][:j] + [dict(b, kw=kw)] + sc["builds"][j + 1:])

    def run(self, sc):
        r = forkrun.call(child, sc)
        viol = []
        for j, b in enumerate(sc["builds"]):
            for key, det in self.judge(sc, b, j, r):
                viol.append({"key": key, "detail": f"build {j} {json.dumps(b['kw'])}: {det}; "
                             f"requests={[(k, q.get('date')) for k, q, _ in r['requests']][:6]}"})
        probes = {}
        if any(w[1] - w[0] > 1 for w in r["windows"]):
            probes["second_request_made"] = 1
        if any(x[2] for x in r["requests"]):
            probes["answer_delivered"] = 1
        faults = {k: n for k, n in r["fired"].items() if k != "ok"}
        if sc["clock"]["jumps"]:
            faults["clock_jump"] = sum(1 for x in sc["clock"]["jumps"] if x)
        sig = hashlib.sha256(repr((
            [(x[0], x[2]) for x in r["requests"]], [sorted(b["kw"]) for b in sc["builds"]],
            sc.get("threads"), r["digest"])).encode()).hexdigest()
        return {"violations": viol, "faults": faults, "sig": sig,
                "nontrivial": bool(faults) or len(sc["builds"]) > 1,
                "sim_s": r["sim_s"], "steps": r["steps"], "preempt": r["preempt"],
                "decisions": r["decisions"], "probes": probes,
                "digest": hashlib.sha256(repr((r["rec"], r["requests"], r["digest"])).encode()).hexdigest()}

    def interrupted(self, reqs):
        return any(x[0] in net.INTERRUPTS for x in reqs)
