"""Second workload vocabulary: a pool of caller-owned arguments (arrays, lists,
nodes, connectors, headers, surveys, strings, fluids) that the same program
passes to one library function after another."""
import hashlib
import json
import math

import numpy as np

from . import world
from .compare import canon
from .owned import guard, own
from .world import (CONNECTOR_FIELDS, NODE_FIELDS, Op, fields, gen_header, gen_survey, mk_header,
                    mk_survey, obs, obs_header, obs_survey, opt)

OPS = {}
VIEWS = ()
VARY = True
SLOW = ("survey_to_plan", "connect_angles", "connect_points_args", "extend_to_tvd", "survey_to_target")


# ---------------------------------------------------------------- generation

def _r(rng, a, b, n=3):
    return round(rng.uniform(a, b), n)


def _unit(rng, down=True):
    inc = math.radians(rng.choice([0.0, 0.0, _r(rng, 0, 90), _r(rng, 0, 170)]))
    azi = math.radians(rng.choice([0.0, _r(rng, 0, 360)]))
    return [round(math.sin(inc) * math.cos(azi), 12), round(math.sin(inc) * math.sin(azi), 12),
            round(math.cos(inc), 12)]


def _pos(rng):
    r = rng.random()
    if r < 0.15:
        return [0.0, 0.0, 0.0]
    if r < 0.3:                                         # straight below / above
        return [0.0, 0.0, _r(rng, -500, 3000, 1)]
    return [_r(rng, -1500, 1500, 1), _r(rng, -1500, 1500, 1), _r(rng, -100, 3500, 1)]


def _asl(rng):
    return rng.choice(["list", "array", "array"])


def gen_obj(rng, t, objs):
    if t == "pos":
        return {"t": t, "v": _pos(rng), "as": _asl(rng)}
    if t == "vec":
        v, r = _unit(rng), rng.random()
        if r < 0.2:                                     # as people type them
            v = [round(x, 3) for x in v]
        elif r < 0.3:
            v = [x * 2.0 for x in v]
        return {"t": t, "v": v, "as": _asl(rng)}
    if t == "pts":
        n = rng.randint(2, 4)
        z = 0.0
        v = []
        for _ in range(n):
            v.append([_r(rng, -400, 400, 1), _r(rng, -400, 400, 1), round(z, 1)])
            z += rng.uniform(400, 900)
        return {"t": t, "v": v, "as": _asl(rng)}
    if t == "sv":                                       # md, inc, azi (rad)
        md, inc, azi = world.gen_path(rng, n=5)
        return {"t": t, "v": [[a, round(math.radians(b), 9), round(math.radians(c), 9)]
                              for a, b, c in zip(md, inc, azi)], "as": "array"}
    if t == "vecs":
        return {"t": t, "v": [_unit(rng) for _ in range(5)], "as": "array"}
    if t == "cov":
        return {"t": t, "n": 5, "scale": _r(rng, 0.5, 3)}
    if t == "num":
        return {"t": t, "v": [_r(rng, 0.1, 80) for _ in range(5)], "as": _asl(rng)}
    if t == "node":
        o = {"t": t, "pos": _pos(rng), "vec": _unit(rng), "md": _r(rng, 0, 4000, 1)}
        r = rng.random()
        if r < 0.08:
            o["vec"] = None
        elif r < 0.14:
            o["pos"] = None
        elif r < 0.24:
            o["md"] = None
        if rng.random() < 0.15:
            o["cov"] = _r(rng, 0.5, 3)
        if rng.random() < 0.1 and o["vec"]:             # direction given as angles
            o["ang"] = [_r(rng, 0, 95, 2), _r(rng, 0, 360, 2), rng.random() < 0.7]
        return o
    if t == "target":                                   # where to go: no depth along hole
        return {"t": t, "pos": _pos(rng), "vec": _unit(rng) if rng.random() < 0.5 else None}
    if t == "conn":
        ns = [i for i, x in enumerate(objs) if x["t"] == "node"]
        a = rng.choice([i for i in ns if None not in (objs[i]["pos"], objs[i]["vec"])] or ns)
        b = rng.choice([i for i, x in enumerate(objs) if x["t"] == "target"] or ns)
        return {"t": t, "n1": a, "n2": b, "dls": rng.choice([2.0, 3.0, 5.0])}
    if t == "header":
        return {"t": t, "spec": gen_header(rng)}
    if t == "survey":
        h = gen_header(rng)
        return {"t": t, "spec": gen_survey(rng, 0), "hdr": h}
    if t == "args":                                     # columns for a survey
        md, inc, azi = world.gen_path(rng)
        o = {"t": t, "md": md, "inc": inc, "azi": azi, "as": _asl(rng)}
        if rng.random() < 0.5:
            o["radius"] = [_r(rng, 0.1, 0.3) for _ in md]
        if rng.random() < 0.6:
            o["start"] = [_r(rng, -100, 100), _r(rng, -100, 100), _r(rng, 0, 50)]
        if rng.random() < 0.4:
            o["cov"] = _r(rng, 0.5, 3)
        if rng.random() < 0.4:
            o["start_cov"] = _r(rng, 0.1, 2)
        return o
    if t == "fluid":
        return {"t": t, "density": _r(rng, 8, 14), "temp": _r(rng, 60, 130), "ratio": _r(rng, 0.1, 0.4)}
    if t == "tdcase":                                   # survey + wellbore + string that fit together
        s = gen_survey(rng, 0, cov=1.0)
        s["kw"].pop("start_nev", None)
        h = gen_header(rng)
        td = s["md"][-1]
        cuts = sorted({round(rng.uniform(0.2, 0.9) * td, 1) for _ in range(rng.randint(0, 2))})
        wb = [{"id": _r(rng, 0.2, 0.5), "coeff_friction_sliding": _r(rng, 0.1, 0.4), "bottom": b}
              for b in cuts + [td]]
        bottom = rng.choice([td, round(td * 0.9, 1), round(td * 0.7, 1)])
        bha = [{"od": _r(rng, 0.1, 0.2), "length": _r(rng, 20, 0.4 * bottom, 1),
                "unit_weight": _r(rng, 300, 2000), "density": rng.choice([7.85, 7.0])}
               for _ in range(rng.randint(0, 2))]
        bha.append({"od": _r(rng, 0.08, 0.15), "length": 99999.0, "unit_weight": _r(rng, 200, 500),
                    "tooljoint_od": 0.17})
        return {"t": t, "survey": s, "hdr": h, "wb": wb, "bha": bha, "bottom": bottom,
                "td": td}
    raise KeyError(t)


def gen_world(rng, kinds=None):
    kinds = kinds or {"pos": 2, "vec": 2, "node": 3, "target": 2, "conn": 1}
    objs = []
    for t, n in kinds.items():
        for _ in range(n):
            objs.append(gen_obj(rng, t, objs))
    return {"objs": objs, "rng": rng.getrandbits(31)}


# --------------------------------------------------------------------- build

class World:
    pass


def _as(v, how):
    v = json.loads(json.dumps(v))
    return np.array(v, dtype=float) if how == "array" else v


def _mk(w, i, cache):
    if i in cache:
        return cache[i]
    s = w["objs"][i]
    t = s["t"]
    if t in ("pos", "vec", "pts", "sv", "vecs", "num"):
        x = _as(s["v"], s["as"])
    elif t == "cov":
        x = world.mk_cov(s["n"], s["scale"])
    elif t == "node":
        from welleng.node import Node
        kw = {"cov_nev": world.mk_cov(1, 1.0) * s["cov"]} if "cov" in s else {}
        if "ang" in s:
            i, z = s["ang"][:2] if s["ang"][2] else map(math.radians, s["ang"][:2])
            x = Node(pos=s["pos"], inc=i, azi=z, degrees=s["ang"][2], md=s["md"], **kw)
        else:
            x = Node(pos=s["pos"], vec=s["vec"], md=s["md"], **kw)
    elif t == "target":
        from welleng.node import Node
        x = Node(pos=s["pos"], vec=s["vec"])
    elif t == "conn":
        from welleng.connector import Connector
        try:
            x = Connector(node1=_mk(w, s["n1"], cache), node2=_mk(w, s["n2"], cache),
                          dls_design=s["dls"])
        except Exception as e:                            # noqa
            x = Failed(e)
    elif t == "header":
        x = mk_header(s["spec"])
    elif t == "survey":
        x = mk_survey(s["spec"], mk_header(s["hdr"]))
    elif t == "args":
        x = {k: _as(s[k], s["as"]) for k in ("md", "inc", "azi")}
        if "radius" in s:
            x["radius"] = _as(s["radius"], s["as"])
        if "start" in s:
            x["start_nev"] = _as(s["start"], s["as"])
        if "cov" in s:
            x["cov_nev"] = world.mk_cov(len(s["md"]), s["cov"])
        if "start_cov" in s:
            x["start_cov_nev"] = np.eye(3) * s["start_cov"]
    elif t == "fluid":
        from welleng.fluid import Fluid
        x = Fluid(s["density"], reference_temp=s["temp"], base_fluid_water_ratio=s["ratio"])
    elif t == "tdcase":
        from welleng.architecture import BHA, WellBore
        x = {"survey": mk_survey(s["survey"], mk_header(s["hdr"]))}
        x["wellbore"] = WellBore("hole", 0, s["td"], method="top_down")
        for q in s["wb"]:
            x["wellbore"].add_section(**json.loads(json.dumps(q)))
        x["string"] = BHA("bha", 0, s["bottom"], method="bottom_up")
        for q in s["bha"]:
            x["string"].add_section(**json.loads(json.dumps(q)))
    cache[i] = x
    return x


class Failed:
    def __init__(self, e):
        self.what = type(e).__name__


def _rng_state():
    import random as pr
    a = np.random.get_state()
    return hashlib.sha256(repr((a[0], a[1].tobytes(), a[2:], pr.getstate())).encode()).hexdigest()


def _seed(n):
    import random as pr
    np.random.seed(n)
    pr.seed(n)


def _rng(w, k):
    """The program's own use of the global random generators is different in
    every process: no answer may depend on it."""
    _seed(w["rng"] + k)


def build(w):
    o = World()
    o.spec = w
    cache = {}
    _seed(w["rng"])
    o.objs = [_mk(w, i, cache) for i in range(len(w["objs"]))]
    return o


def build_minimal(w, keep, d=None):
    _seed(w["rng"] + 1 + keep[0])
    o = World()
    o.spec = w
    cache = {}
    o.objs = [None] * len(w["objs"])
    for i in keep:
        o.objs[i] = _mk(w, i, cache)
    return o


def obs_any(x):
    t = type(x).__name__
    if t == "ndarray":
        return {"array": canon(x), "dtype": str(x.dtype)}
    if t == "list":
        return {"list": [obs_any(v) for v in x]}
    if t == "dict":
        return {k: obs_any(v) for k, v in x.items()}
    if t == "Node":
        return fields(x, NODE_FIELDS + ("cov_nev",))
    if t == "Connector":
        return fields(x, CONNECTOR_FIELDS) | {"start": obs_any(x.node_start), "end": obs_any(x.node_end)}
    if t == "SurveyHeader":
        return obs_header(x)
    if t == "Survey":
        return obs_survey(x)
    if t in ("String", "BHA", "WellBore"):
        return {k: canon(getattr(x, k)) for k in ("name", "top", "bottom", "method", "complete", "sections")}
    if t == "Fluid":
        return {k: canon(v) for k, v in vars(x).items() if not callable(v)}
    if t == "Failed":
        return {"failed": x.what}
    return canon(x)


def obs_obj(o, i):
    return obs_any(o.objs[i])


def count(w):
    return len(w["objs"])


def snapshot(o):
    return {"objs": [obs_any(x) for x in o.objs], "shared": [_rng_state()]}


def plain(w):
    return [i for i, s in enumerate(w["objs"]) if s["t"] not in ("survey", "conn", "tdcase", "header")]


def outputs(d):
    return []


def ref_shared(w):
    _seed(w["rng"])
    return [_rng_state()]


def sig(w):
    return [s["t"] for s in w["objs"]]


def _other(w, i, t):
    same = [k for k, x in enumerate(w["objs"]) if x["t"] == w["objs"][i]["t"]]
    return same[(same.index(i) + t) % len(same)]


def mirror(d, t, w):
    ob = [_other(w, i, t) for i in d["objs"]]
    return dict(d, objs=ob, s=ob[0])


def repick(rng, w, d):
    return mirror(d, rng.randint(0, 2), w)


def simplify(sc, needed):
    w = sc["world"]
    used = {i for d in sc["ops"] for i in needed(d)}
    for i in sorted(used):
        s = w["objs"][i]
        if s["t"] == "conn":
            used = used | {s["n1"], s["n2"]}
    if used and max(used) < len(w["objs"]) - 1:
        yield dict(sc, world=dict(w, objs=w["objs"][:max(used) + 1]))
    for i, s in enumerate(w["objs"]):
        if s["t"] == "survey":
            for k in sorted(s["spec"]["kw"]):
                kw = {a: b for a, b in s["spec"]["kw"].items() if a != k}
                yield dict(sc, world=dict(w, objs=w["objs"][:i] + [dict(s, spec=dict(s["spec"], kw=kw))]
                                          + w["objs"][i + 1:]))


# ---------------------------------------------------------------- operations

def op(name, group, types, gen=None, mutates=False):
    def deco(fn):
        o = OPS[name] = Op(name, gen or (lambda rng, w: {}), fn, group, mutates)
        o.types = types
        return fn
    return deco


def names(*groups):
    return [n for n, v in OPS.items() if v.group in groups]


def gen_op(rng, w, pool):
    have = {}
    for i, s in enumerate(w["objs"]):
        have.setdefault(s["t"], []).append(i)
    pool = [n for n in pool if all(t.rstrip("?") in have for t in OPS[n].types)]
    n = rng.choice(pool)
    if n in SLOW and rng.random() < 0.6:
        n = rng.choice(pool)
    ob = [rng.choice(have[t]) for t in OPS[n].types]
    d = {"op": n, "s": ob[0], "objs": ob}
    d.update(OPS[n].gen(rng, w))
    return d


def run_op(o, d):
    a = [o.objs[i] for i in d["objs"]]
    if any(isinstance(x, Failed) for x in a):
        return "argument could not be built"
    _use_rng(o, d)
    return guard(lambda: OPS[d["op"]].fn(o, a, d))


def _use_rng(o, d):
    pass


# util ------------------------------------------------------------------

def _u(name, types, gen=None):
    def deco(fn):
        @op(name, "util", types, gen)
        def g(o, a, d):
            from welleng import utils
            return obs(fn(utils, a, d))
        return fn
    return deco


_u("get_nev", ["pts"])(lambda u, a, d: [u.get_nev(a[0]), u.get_nev(a[0], start_nev=np.array([1., 2., 3.]))])
_u("get_xyz", ["pts"])(lambda u, a, d: u.get_xyz(a[0]))
_u("get_nev_start", ["pos", "pos", "pos"])(
    lambda u, a, d: [u.get_nev(a[0], start_xyz=a[1], start_nev=a[2]), u.get_xyz(a[0], a[1], a[2])])
_u("get_angles", ["vecs"], lambda r, w: {"nev": r.random() < 0.5})(
    lambda u, a, d: u.get_angles(a[0], nev=d["nev"]))
_u("get_angles_1", ["vec"], lambda r, w: {"nev": r.random() < 0.5})(
    lambda u, a, d: u.get_angles(np.asarray(a[0]), nev=d["nev"]))
_u("get_unit_vec", ["pos"])(lambda u, a, d: u.get_unit_vec(np.asarray(a[0]) if type(a[0]) is list else a[0]))
_u("get_vec", ["num", "num"], lambda r, w: {"nev": r.random() < 0.5, "deg": r.random() < 0.5})(
    lambda u, a, d: u.get_vec(np.asarray(a[0]), np.asarray(a[1]), nev=d["nev"], deg=d["deg"]))
_u("min_curve", ["sv"])(lambda u, a, d: [vars(u.MinCurve(a[0][:, 0], a[0][:, 1], a[0][:, 2]))[k]
                                         for k in ("delta_x", "delta_y", "delta_z", "dogleg", "rf")])
_u("min_curve_start", ["sv", "pos"])(
    lambda u, a, d: u.MinCurve(a[0][:, 0], a[0][:, 1], a[0][:, 2], start_xyz=a[1]).poss)
_u("get_transform", ["sv"])(lambda u, a, d: u.get_transform(a[0]))
_u("nev_to_hla", ["sv", "cov"])(lambda u, a, d: u.NEV_to_HLA(a[0], a[1]))
_u("hla_to_nev", ["sv", "cov"])(lambda u, a, d: u.HLA_to_NEV(a[0], a[1]))
_u("nev_to_hla_pos", ["sv", "vecs"])(lambda u, a, d: [u.NEV_to_HLA(a[0], a[1], cov=False),
                                                      u.HLA_to_NEV(a[0], a[1], cov=False)])
_u("get_sigmas", ["cov"], lambda r, w: {"long": r.random() < 0.5})(
    lambda u, a, d: u.get_sigmas(a[0], long=d["long"]))
_u("errors_from_cov", ["cov"], lambda r, w: {"data": r.random() < 0.5})(
    lambda u, a, d: u.errors_from_cov(a[0], data=d["data"]))
_u("cov_from_vec", ["vecs"])(lambda u, a, d: u.cov_from_vec(a[0]))
_u("make_cov", ["num", "num", "num"], lambda r, w: {"long": r.random() < 0.5})(
    lambda u, a, d: u.make_cov(np.asarray(a[0]), np.asarray(a[1]), np.asarray(a[2]), long=d["long"]))
_u("linear_convert", ["num"], lambda r, w: {"f": r.choice([0.3048, 3.28084])})(
    lambda u, a, d: u.linear_convert(a[0], d["f"]))
_u("dls_radius", ["num"])(lambda u, a, d: [u.dls_from_radius(np.asarray(a[0])), u.radius_from_dls(np.asarray(a[0]))])
_u("annular_volume", ["num", "num"])(lambda u, a, d: u.annular_volume(np.asarray(a[0]), None, np.asarray(a[1])))
_u("decimal2dms", ["num"])(lambda u, a, d: u.decimal2dms(a[0], ndigits=6))
_u("dms2decimal", ["vecs"])(lambda u, a, d: u.dms2decimal(a[0], ndigits=6))
_u("get_arc", ["pos", "vec"], lambda r, w: {"dl": _r(r, 0, 2), "r": _r(r, 100, 900), "tf": _r(r, 0, 6),
                                            "target": r.random() < 0.5, "bare": r.random() < 0.2})(
    lambda u, a, d: u.get_arc(d["dl"], d["r"], d["tf"], *((None, None) if d["bare"] else (a[0], np.asarray(a[1]))),
                              target=d["target"]))
_u("arc_twice", ["pos", "vec"], lambda r, w: {"dl": _r(r, 0, 2), "r": _r(r, 100, 900), "tf": _r(r, 0, 6)})(
    lambda u, a, d: (lambda k: [k.transform(d["tf"], a[0], a[1], True), k.transform(d["tf"]), k.pos, k.vec,
                                k.transform(d["tf"], a[0], a[1])])(u.Arc(d["dl"], d["r"])))
_u("make_clc_path", ["pos", "vec"], lambda r, w: {
    "a": [_r(r, 0, 6), _r(r, 0, 1.5), _r(r, 0, 900), _r(r, 0, 6), _r(r, 0, 1.5)], "r": _r(r, 100, 900)})(
    lambda u, a, d: u.make_clc_path(*d["a"], pos0=a[0], vec0=a[1], radius=d["r"]))
_u("get_toolface", ["pos", "vec", "pos"])(
    lambda u, a, d: [u.get_toolface(a[0], a[1], a[2]), u.get_toolface_fast(a[0], a[1], a[2])])
_u("arc_given", ["pos", "vec"], lambda r, w: {"dl": _r(r, 0, 2), "r": _r(r, 100, 900), "tf": _r(r, 0, 6)})(
    lambda u, a, d: u.get_arc(d["dl"], d["r"], d["tf"], pos=a[0], vec=a[1], target=True))
_u("hla_to_nev_trans", ["sv", "cov"])(lambda u, a, d: (lambda k: [u.HLA_to_NEV(a[0], a[1], trans=k), k])(
    own(u.get_transform(a[0]), "transform")))
_u("make_long_cov", ["vecs"])(lambda u, a, d: u.make_long_cov(np.hstack([a[0], a[0]])))
_u("dms_from_string", ["num"], lambda r, w: {"text": r.choice([
    "52\u00b0, 4', 41.3 sec N", "4 deg, 18 min, 1.5 sec E", "12, 30, 59", "no angle here"])})(
    lambda u, a, d: u.dms_from_string(d["text"]))
_u("pprint_dms", ["num"])(lambda u, a, d: u.pprint_dms(tuple(a[0][:3]), return_data=True))


_u("min_curve_step", ["sv"], lambda r, w: {"rf": r.random() < 0.5})(lambda u, a, d: [
    u.get_dogleg(a[0][:-1, 1], a[0][:-1, 2], a[0][1:, 1], a[0][1:, 2]),
    u.min_curve_step(np.diff(a[0][:, 0]), a[0][:-1, 1], a[0][:-1, 2], a[0][1:, 1], a[0][1:, 2],
                     **({"rf": own(np.linspace(1, 1.1, len(a[0]) - 1), "ratio factors")} if d["rf"] else {})),
    u.get_rf(a[0][:, 1])])


@op("evaluate_formula", "util", ["num", "num"], lambda r, w: {"f": r.choice([
    "SIN(Inc)*COS(AzT)", "MD*0+1", "-SIN(Inc)*TAN(Dip)/Gfield", "ABS(SIN(Inc))^2+1", "MD", "AzT", "0", 0.5,
    "MAX(Inc, AzT)", "import os", "Inc +", "Missing*2"])})
def _(o, a, d):
    from welleng.errors.interpreter import evaluate_formula
    b = own({"Inc": np.asarray(a[0]), "AzT": np.asarray(a[1]), "MD": a[0], "Dip": 1.2, "Gfield": 9.8}, "bindings")
    return obs(evaluate_formula(d["f"], b))


# survey-building and node functions ----------------------------------------

@op("new_node", "util", ["pos", "vec", "cov"], lambda r, w: {
    "nev": r.random() < 0.7, "md": _r(r, 0, 100), "cov": r.random() < 0.3, "kw": opt(r, unit=["feet"]),
    "ang": [_r(r, 0, 95, 2), _r(r, 0, 360, 2), r.random() < 0.7] if r.random() < 0.3 else None})
def _(o, a, d):
    from welleng.node import Node, get_node_params
    kw = dict(d["kw"])
    if d["cov"]:
        kw["cov_nev"] = a[2]
    if d["ang"]:
        kw.update(inc=d["ang"][0], azi=d["ang"][1], degrees=d["ang"][2])
    else:
        kw["vec"] = a[1]
    n = Node(pos=a[0], md=d["md"], nev=d["nev"], **kw)
    return [obs_any(n), obs(list(get_node_params(n)))]


@op("new_survey_args", "build", ["args", "header"], lambda r, w: {
    "model": r.choice([None, None, "ISCWSA MWD Rev4", "MWD+SRGM", "GYRO-NS"]), "deg": r.random() < 0.9})
def _(o, a, d):
    from welleng.survey import Survey
    kw = dict(a[0])
    if d["model"]:
        kw.pop("cov_nev", None)
    else:
        kw.pop("start_cov_nev", None) if "cov_nev" not in kw else None
    return obs_survey(Survey(header=a[1], error_model=d["model"], deg=d["deg"], **kw))


@op("survey_twice", "build", ["args", "header"])
def _(o, a, d):
    """Two surveys from the same caller arrays."""
    from welleng.survey import Survey
    x = Survey(header=a[1], **a[0])
    y = Survey(header=a[1], **a[0])
    x.set_vertical_section(33.0)
    return [obs_survey(x), obs_survey(y)]


@op("targets", "build", ["pos"], lambda r, w: {
    "shape": r.choice(["circle", "circle", "circle", "ellipse", "rectangle", "polygon", "blob"]),
    "g": r.choice([{"radius": 50.0}, {"radius": 50.0}, {"radius_1": 30.0, "radius_2": 60.0}, {"pos1": [0, 0], "pos2": [10, 20]}]),
    "kw": opt(r, locked=[1], orientation=[30.0], dip=[10.0], color=["red"], alpha=[0.2])})
def _(o, a, d):
    from welleng.target import Target
    g = {k: own(v, k) for k, v in json.loads(json.dumps(d["g"])).items()}
    x = [Target("a", *a[0], d["shape"], **d["kw"], **g), Target("b", *a[0], "circle", radius=1.0)]
    return [{k: canon(v) for k, v in vars(t).items()} for t in x]


@op("splice_list", "build", ["survey", "survey"])
def _(o, a, d):
    from welleng.survey import splice_surveys
    return obs_survey(splice_surveys(own([a[0], a[1]], "list of surveys")))


@op("grid_header", "build", ["header"])
def _(o, a, d):
    from welleng.survey import get_grid_header
    return obs_header(get_grid_header(a[0]))


@op("clearance_nodes", "build", ["survey", "survey"], lambda r, w: {
    "min": r.random() < 0.3, "kw": world._clearance_kw(r)})
def _(o, a, d):
    from welleng.clearance import IscwsaClearance
    c = IscwsaClearance(a[0], a[1], minimize_sf=d["min"], **d["kw"])
    return fields(c, ("sf", "idx", "distance_cc", "masd"))


@op("mesh_lines", "build", ["survey", "survey"])
def _(o, a, d):
    from welleng.clearance import MeshClearance
    c = MeshClearance(a[0], a[1], n_verts=6)
    return [obs(c.get_lines()), fields(c, ("distance_CC", "collision", "sf"))]


@op("ref_sigma", "build", ["survey"], lambda r, w: {"k": r.randint(0, 3)})
def _(o, a, d):
    from welleng.clearance import get_ref_sigma
    c = a[0].cov_nev
    s = [np.sqrt(np.abs(c[:, i, i])) for i in range(3)] if c is not None else [a[0].n, a[0].e, a[0].tvd]
    return [obs(get_ref_sigma(*s, min(d["k"], len(s[0]) - 1))), obs(s)]


@op("transform_coordinates", "build", ["pos"], lambda r, w: {
    "to": r.choice(["EPSG:32631", "EPSG:4326", "EPSG:23032"]), "crs": r.choice(["EPSG:23031", "EPSG:27700"])})
def _(o, a, d):
    from welleng.survey import SurveyParameters
    c = SurveyParameters(d["crs"])
    x = own([[588000.0 + a[0][0], 5770000.0 + a[0][1]]], "coordinates")
    return [obs(c.transform_coordinates(x, d["to"])), obs(c.transform_coordinates(x[0], d["to"])), x]


@op("mesh_args", "build", ["survey"], lambda r, w: {
    "verts": r.choice([6, 8]), "kw": opt(r, method=["circle", "pedal_curve"], sigma=[1.0], sigma_pa=[0.0])})
def _(o, a, d):
    from welleng.mesh import WellMesh, make_trimesh_scene
    m = WellMesh(a[0], n_verts=d["verts"], **d["kw"])
    out = fields(m, ("vertices", "faces"))
    if getattr(m, "mesh", None) is not None:
        sc = make_trimesh_scene(own({"a": m, "b": m}, "meshes"))
        out["bounds"] = canon(sc.bounds)
        out["first"] = canon(m.mesh.vertices)
    return out


@op("mesh_sliced", "build", ["survey"], lambda r, w: {
    "step": r.choice([1, 2]),
    "kw": opt(r, method=["circle"], sigma=[1.0], sigma_pa=[0.0], Sm=[1.0], start=[1], stop=[3])})
def _(o, a, d):
    from welleng.mesh import fix_mesh, sliced_mesh
    ms = sliced_mesh(a[0], n_verts=6, step=d["step"], **dict({"method": "ellipse"}, **d["kw"]))
    return [[canon(m.vertices), canon(fix_mesh(m).faces)] for m in ms]


# planning ------------------------------------------------------------------

@op("connect_nodes", "plan", ["node", "target"], lambda r, w: {
    "dls": r.choice([2.0, 3.0, 5.0]), "dls2": r.choice([None, None, 4.0]), "fmc": r.random() < 0.15,
    "kw": opt(r, 0.12, min_error=[1e-3, 1e-6], delta_dls=[0.5], min_tangent=[0.0, 30.0], max_iterations=[50, 2000])})
def _(o, a, d):
    from welleng.connector import Connector
    return obs_any(Connector(node1=a[0], node2=a[1], dls_design=d["dls"], dls_design2=d["dls2"],
                             force_min_curve=d["fmc"], **d["kw"]))


@op("connect_points_args", "plan", ["pos", "vec", "pos", "vec"], lambda r, w: {
    "v2": r.random() < 0.5, "dls": r.choice([2.0, 3.0, 5.0]), "md": _r(r, 0, 500),
    "ca": r.random() < 0.15, "kw": opt(r, 0.12, min_error=[1e-3, 1e-6], delta_dls=[0.5], min_tangent=[0.0, 30.0], max_iterations=[50, 2000])})
def _(o, a, d):
    from welleng.connector import Connector
    kw = dict(d["kw"], **({"vec2": a[3]} if d["v2"] else {}))
    c = Connector(pos1=a[0], vec1=a[1], pos2=a[2], md1=d["md"], dls_design=d["dls"],
                  closest_approach=d["ca"], **kw)
    return obs_any(c)


@op("connect_angles", "plan", ["pos", "pos"], lambda r, w: {
    "i": [_r(r, 0, 90), _r(r, 0, 360), _r(r, 0, 90), _r(r, 0, 360)], "dls": r.choice([2.0, 3.0]),
    "md2": r.choice([None, 900.0]), "rad": r.random() < 0.2})
def _(o, a, d):
    from welleng.connector import Connector
    i = d["i"]
    if d["rad"]:
        return obs_any(Connector(pos1=a[0], inc1=math.radians(i[0]), azi1=math.radians(i[1]), pos2=a[1],
                                 inc2=math.radians(i[2]), azi2=math.radians(i[3]), degrees=False,
                                 dls_design=d["dls"]))
    if d["md2"]:
        return obs_any(Connector(pos1=a[0], inc1=i[0], azi1=i[1], md1=0, md2=d["md2"], inc2=i[2],
                                 azi2=i[3], dls_design=d["dls"]))
    return obs_any(Connector(pos1=a[0], inc1=i[0], azi1=i[1], pos2=a[1], inc2=i[2], azi2=i[3],
                             dls_design=d["dls"]))


@op("connector_interpolate", "plan", ["conn"], lambda r, w: {"step": r.choice([30, 50, 110])})
def _(o, a, d):
    return obs([a[0].interpolate(step=d["step"])])


@op("interpolate_wells", "plan", ["conn", "conn"], lambda r, w: {"step": r.choice([30, 75])})
def _(o, a, d):
    from welleng.connector import interpolate_well
    secs = own([a[0], a[1]], "list of sections")
    return obs(interpolate_well(secs, step=d["step"]))


@op("chain_from", "plan", ["conn", "target"], lambda r, w: {"dls": r.choice([2.0, 4.0])})
def _(o, a, d):
    from welleng.connector import Connector
    return obs_any(Connector(node1=a[0].node_end, node2=a[1], dls_design=d["dls"]))


@op("survey_from_connections", "plan", ["conn", "header"], lambda r, w: {
    "step": r.choice([30, 60]), "model": r.choice([None, None, "ISCWSA MWD Rev4"]),
    "n": [_r(r, -50, 50) for _ in range(3)], "cov": r.random() < 0.25, "hdr": r.random() < 0.8,
    "kw": opt(r, 0.15, start_xyz=[[5.0, 6.0, 7.0]], radius=[0.2], decimals=[3], depth_unit=["feet"],
              surface_unit=["feet"])})
def _(o, a, d):
    from welleng.survey import from_connections
    kw = {k: own(json.loads(json.dumps(v)), k) for k, v in d["kw"].items()}
    if d["cov"] and d["model"]:
        kw["start_cov_nev"] = own(np.eye(3) * 1.5, "start covariance")
    if d["hdr"]:
        kw["survey_header"] = a[1]
    return obs_survey(from_connections(own([a[0]], "list of sections"), step=d["step"],
                                       start_nev=own(list(d["n"]), "start"), error_model=d["model"], **kw))


@op("survey_from_sections", "plan", ["conn", "conn", "header"], lambda r, w: {"step": r.choice([None, 30, 60])})
def _(o, a, d):
    """A whole plan: two sections, not necessarily in order of depth."""
    from welleng.survey import from_connections
    return obs_survey(from_connections(own([a[0], a[1]], "list of sections"), step=d["step"],
                                       survey_header=a[2]))


@op("connector_survey", "plan", ["conn"], lambda r, w: {"step": r.choice([20, 50]), "r": _r(r, 0.1, 1)})
def _(o, a, d):
    return obs_survey(a[0].survey(radius=d["r"], step=d["step"]))


@op("survey_to_plan", "plan", ["survey"], lambda r, w: {"tol": r.choice([0.2, 1.0]), "dls": r.choice([1.0, 3.0])})
def _(o, a, d):
    from welleng.connector import survey_to_plan
    return [obs_any(c) for c in survey_to_plan(a[0], tolerance=d["tol"], dls_design=d["dls"])]


@op("connect_cartesians", "plan", ["pts", "vec"], lambda r, w: {
    "dls": r.choice([3.0, 5.0]), "nev": r.random() < 0.8, "vert": r.random() < 0.5,
    "each": r.choice([None, None, "list", "array"]), "md": r.choice([0.0, 0.0, _r(r, 1, 900, 1)])})
def _(o, a, d):
    from welleng.connector import connect_points
    kw = {} if d["vert"] else {"vec_start": a[1]}
    dls = d["dls"]
    if d["each"]:
        dls = own(_as([d["dls"] + 0.5 * k for k in range(len(a[0]))], d["each"]), "list of design curvatures")
    return [obs_any(c) for c in connect_points(a[0], dls_design=dls, nev=d["nev"], md_start=d["md"], **kw)]


@op("curve_hold_batch", "plan", ["pts", "vec"], lambda r, w: {
    "r": r.choice([300.0, 600.0, 1200.0]), "off": [_r(r, -900, 900) for _ in range(3)], "each": r.random() < 0.3})
def _(o, a, d):
    from welleng.connector import solve_curve_hold_batch
    p = np.asarray(a[0])
    v = np.broadcast_to(np.asarray(a[1]), p.shape).copy()
    t = p[::-1] + d["off"]
    r = np.full(len(p), d["r"]) if d["each"] else d["r"]
    for x in (v, t, r):
        own(x, "array")
    return [obs(solve_curve_hold_batch(a[0], v, t, r)), obs([p, v, t, r])]


@op("drop_off", "plan", ["node"], lambda r, w: {
    "inc": r.choice([0.0, _r(r, 0, 80)]), "dls": r.choice([2.0, 3.0]), "dmd": r.choice([None, 300.0, 800.0])})
def _(o, a, d):
    from welleng.connector import drop_off
    return [obs_any(n) for n in drop_off(d["inc"], d["dls"], d["dmd"], a[0])]


@op("extend_to_tvd", "plan", ["node"], lambda r, w: {
    "add": _r(r, 50, 900), "inc": r.choice([None, None, 0.0, 20.0]), "dls": r.choice([None, 3.0])})
def _(o, a, d):
    from welleng.connector import extend_to_tvd
    n = a[0]
    z = 0.0 if n.pos_nev is None else n.pos_nev[2]
    return [obs_any(c) for c in extend_to_tvd(z + d["add"], node=n, target_inc=d["inc"], dls=d["dls"])]


@op("project_ahead", "plan", ["pos", "vec"], lambda r, w: {
    "dmd": _r(r, 5, 300), "dls": r.choice([0.0, 2.0, 4.0]), "tf": _r(r, 0, 6)})
def _(o, a, d):
    from welleng.survey import project_ahead
    return obs_any(project_ahead(np.asarray(a[0]), np.asarray(a[1]), d["dmd"], d["dls"], d["tf"], md=10.0))


@op("survey_to_target", "plan", ["survey", "target"], lambda r, w: {
    "dls": r.choice([3.0, 5.0]), "dmd": r.choice([None, 20.0]),
    "kw": opt(r, dls=[1.0, 2.5], toolface=[0.4, 3.0], step=[10.0, 30.0, 75.0])})
def _(o, a, d):
    from welleng.survey import project_to_target
    return obs_survey(project_to_target(a[0], a[1], dls_design=d["dls"], delta_md=d["dmd"], **d["kw"]))


@op("survey_to_bit", "plan", ["survey"], lambda r, w: {"dmd": _r(r, 5, 40)})
def _(o, a, d):
    return obs(a[0].project_to_bit(d["dmd"]))


# strings, torque and drag, fluids ------------------------------------------

@op("torque_drag", "td", ["tdcase"], lambda r, w: {
    "fd": r.choice([1.0, 1.3, 1.6]), "load": r.choice([{}, {}, {"wob": 5e4, "tob": 2e3}, {"overpull": 1e5}])})
def _(o, a, d):
    from welleng.torque_drag import TorqueDrag
    t = TorqueDrag(a[0]["survey"], a[0]["wellbore"], a[0]["string"], d["fd"], **d["load"])
    return obs([t.tension, t.torque, t.weight_buoyed, t.radius, t.coeff_friction_sliding])


@op("torque_drag_two_fluids", "td", ["tdcase"], lambda r, w: {"fd": [1.0, r.choice([1.4, 1.7])]})
def _(o, a, d):
    """Two scenarios on the same string, the first loaded again afterwards."""
    from welleng.torque_drag import TorqueDrag
    x = TorqueDrag(a[0]["survey"], a[0]["wellbore"], a[0]["string"], d["fd"][0])
    y = TorqueDrag(a[0]["survey"], a[0]["wellbore"], a[0]["string"], d["fd"][1])
    x.get_weight_buoyed_and_radius()
    x.get_forces_and_torsion()
    return obs([x.tension, x.torque, y.tension, y.torque, x.weight_buoyed])


@op("torque_drag_loads", "td", ["tdcase"], lambda r, w: {"fd": 1.2, "wob": _r(r, 1e4, 9e4)})
def _(o, a, d):
    from welleng.torque_drag import TorqueDrag
    t = TorqueDrag(a[0]["survey"], a[0]["wellbore"], a[0]["string"], d["fd"])
    t.get_forces_and_torsion(wob=d["wob"], tob=1e3)
    t.get_forces_and_torsion(overpull=2e4)
    return obs([t.tension, t.torque])


@op("hookload", "td", ["tdcase"], lambda r, w: {"fd": r.choice([1.0, 1.4]), "n": r.choice([2, 3]),
                                                "ff": r.choice([[0.1, 0.3, 0.2], [0.2, 0.4, 0.1]])})
def _(o, a, d):
    from welleng.torque_drag import HookLoad
    s = a[0]["string"]
    ff = own(d["ff"] if d["n"] == 2 else tuple(d["ff"]), "friction factors")
    h = HookLoad(a[0]["survey"], a[0]["wellbore"], s, d["fd"], step=(s.bottom - s.top) / d["n"], ff_range=ff)
    return obs([{str(k): v for k, v in h.data.items()}, h.md_range, h.ff_range])


@op("string_depth", "td", ["tdcase"], lambda r, w: {"f": _r(r, 0.1, 1.0)})
def _(o, a, d):
    s = a[0]["string"]
    return obs_any(s.depth(round(s.bottom * d["f"], 1)))


@op("density_profile", "td", ["fluid", "num"], lambda r, w: {
    "n": r.randint(1, 3), "dt": _r(r, 5, 80), "p": r.choice([0.0, 500.0]),
    "bounds": [6.0, r.choice([9.0, 20.0])] if r.random() < 0.3 else None})
def _(o, a, d):
    depth = [1000.0 * (k + 1) for k in range(d["n"])]
    temp = own(np.array([a[0].temp_reference + d["dt"] * (k + 1) for k in range(d["n"])]), "temperatures")
    own(depth, "depths")
    kw = {"density_bounds": own(tuple(d["bounds"]), "bounds")} if d["bounds"] else {}
    r = a[0].get_density_profile(depth, temp, pressure_applied=d["p"], **kw)
    return obs([r, depth, temp])


@op("new_fluid", "td", ["fluid"], lambda r, w: {"mat": r.choice(["Barite", "SPE_11118", "sand"])})
def _(o, a, d):
    from welleng.fluid import Fluid
    return obs_any(Fluid(a[0].density_fluid_reference, weighting_material=d["mat"]))
