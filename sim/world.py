"""Workload vocabulary: worlds (headers, surveys, nodes described by plain data)
and the operations callers run against them.  `build` and the operations are the
only code here that touches the library; everything else is plain data."""
import copy
import json
import math
import random

import numpy as np

from . import bootstrap
from .compare import canon
from .owned import guard, own

MODELS = ["ISCWSA MWD Rev4", "ISCWSA MWD Rev5.11", "MWD+IFR1", "MWD+SRGM+SAG",
          "EMS+SRGM+AX", "GYRO-NS", "GYRO-MWD", "GYRO-NS-CT", "BLIND", "DIPMETER",
          "MWD+IFR2+SAG+MS_Fl", "UNKNOWN", "ZERO-ERROR", "CB_Film_MMS"]

SURVEY_FIELDS = (
    "md", "inc_deg", "inc_rad", "azi_grid_deg", "azi_grid_rad", "azi_true_deg",
    "azi_true_rad", "azi_mag_deg", "azi_mag_rad", "n", "e", "tvd", "x", "y", "z",
    "pos_nev", "pos_xyz", "vec_nev", "vec_xyz", "dogleg", "rf", "delta_md", "dls",
    "toolface", "build_rate", "turn_rate", "curve_radius", "normals", "vec_radius_nev",
    "radius", "vertical_section", "hypot", "cov_nev", "cov_hla", "cov_nev_random",
    "cov_nev_systematic", "cov_nev_global", "cov_nev_within_pad", "start_nev",
    "start_xyz", "start_cov_nev", "interpolated", "survey_deg", "survey_rad", "unit",
    "deg", "error_model")
HEADER_FIELDS = (
    "name", "latitude", "longitude", "altitude", "survey_date", "b_total", "earth_rate",
    "dip", "declination", "convergence", "vertical_inc_limit", "grid_scale_factor",
    "depth_unit", "surface_unit", "G", "azi_reference", "vertical_section_azimuth",
    "mag_defaults")
NODE_FIELDS = ("pos_nev", "pos_xyz", "vec_nev", "vec_xyz", "inc_rad", "inc_deg",
               "azi_rad", "azi_deg", "md", "unit", "interpolated")
CONNECTOR_FIELDS = (
    "pos1", "vec1", "inc1", "azi1", "md1", "pos_target", "vec_target", "inc_target",
    "azi_target", "md_target", "pos2", "pos3", "vec2", "vec3", "md2", "md3",
    "tangent_length", "dogleg", "dogleg2", "dist_curve", "dist_curve2", "radius_design",
    "radius_design2", "radius_critical", "radius_critical2", "method", "dls_design",
    "dls", "dls2", "delta_md", "unit")
ISCWSA_FIELDS = (
    "sf", "idx", "closest", "distance_cc", "masd", "eou_boundary", "eou_separation",
    "hoz_bearing_deg", "off_pcr", "ref_pcr", "off_cov_nev", "off_cov_hla", "ref_cov_nev",
    "ref_cov_hla", "off_nevs", "ref_nevs", "offset_nevs", "trav_cyl_azi_deg",
    "wellbore_separation", "calc_hole", "Rr", "Ro", "Sm", "sigma_pa", "k")


def fields(o, names):
    out = {}
    for n in names:
        v = getattr(o, n, "<absent>")
        out[n] = canon(copy.deepcopy(v) if not hasattr(v, "__dict__") else v)
    return out


def obs_header(h):
    return fields(h, HEADER_FIELDS)


def obs_survey(s, header=True):
    d = fields(s, SURVEY_FIELDS)
    if header:
        d["header"] = obs_header(s.header)
    terms = getattr(getattr(getattr(s, "err", None), "errors", None), "errors", None)
    if terms:                                           # per-source breakdown
        d["sources"] = list(terms)
        d["source_sums"] = [{n: digest(v) for n, v in sorted(vars(terms[k]).items()) if n[0] != "_"}
                            for k in d["sources"]]
        d["model"] = {n: digest(v) for n, v in sorted(vars(s.err).items())
                      if n[0] != "_" and isinstance(v, np.ndarray)}
    return d


WEIGHTS = 1 + np.random.RandomState(7).random_sample(4099)


def digest(v):
    """A number that changes with every element of an array."""
    if isinstance(v, np.ndarray) and v.dtype.kind in "fiub":
        v = np.nan_to_num(np.asarray(v, dtype=float)).ravel()
        return float(v @ np.resize(WEIGHTS, v.size))
    return v if isinstance(v, (str, int, float, bool, type(None))) else None


CAPTURE = None          # when a list: results handed to the caller are recorded


def obs(x):
    """What the caller sees of any result."""
    if CAPTURE is not None:
        CAPTURE.append(x)
    t = type(x).__name__
    if t == "Survey":
        return obs_survey(x)
    if t == "SurveyHeader":
        return obs_header(x)
    if t == "Node":
        return fields(x, NODE_FIELDS)
    if t == "Connector":
        return fields(x, CONNECTOR_FIELDS)
    if t == "DataFrame":
        return {"columns": [str(c) for c in x.columns], "values": np.array(x.values, dtype=float)}
    if t == "TurnPoint":
        return {k: canon(v) for k, v in vars(x).items() if not k.startswith("_")}
    if t in ("list", "tuple"):
        return [obs(v) for v in x]
    if t == "dict":
        return {str(k): obs(v) for k, v in x.items()}
    return canon(x)


# --------------------------------------------------------------- generation

def gen_header(rng, unit="meters", name=None):
    h = {"name": name or f"H{rng.randint(0, 3)}", "b_total": round(rng.uniform(30000, 60000), 2),
         "dip": round(rng.uniform(40, 85), 3) * rng.choice([1, 1, -1]),
         "declination": round(rng.uniform(-12, 12), 3),
         "convergence": round(rng.uniform(-3, 3), 3),
         "azi_reference": rng.choice(["true", "true", "grid", "magnetic"]),
         "latitude": round(rng.uniform(-70, 70), 3), "longitude": round(rng.uniform(-170, 170), 3),
         "altitude": 0.0, "survey_date": "2021-03-04", "depth_unit": unit, "surface_unit": unit}
    if rng.random() < 0.6:
        h["vertical_section_azimuth"] = round(rng.uniform(0, 360), 2)
    if rng.random() < 0.3:
        h["grid_scale_factor"] = 0.9996
    if rng.random() < 0.1:
        h["convergence"] = 0.0
    if rng.random() < 0.12:                             # everything in radians
        for k in ("dip", "declination", "convergence", "vertical_section_azimuth"):
            if k in h:
                h[k] = round(math.radians(h[k]), 6)
        h["deg"] = False
        if rng.random() < 0.6:
            h["vertical_section_azimuth"] = None
    return h


def gen_path(rng, n=None):
    n = n or rng.randint(4, 9)
    step = rng.choice([30, 90, 150, 300])
    md, inc, azi = [0.0], [0.0], [round(rng.uniform(0, 359), 2) if rng.random() < 0.4 else 0.0]
    nv = rng.randint(0, 2)
    i, a = 0.0, round(rng.uniform(0, 359), 2)
    maxi = rng.choice([30, 60, 88, 95])
    for k in range(1, n):
        d = round(step * rng.uniform(0.5, 1.5), 2)
        md.append(round(md[-1] + d, 2))
        if k <= nv:
            inc.append(0.0)
            azi.append(0.0)
            continue
        r = rng.random()
        if r < 0.25 and k > nv + 1:                    # hold
            pass
        else:
            i = min(maxi, max(0.5, i + rng.uniform(-3, 12) * d / 90))
            a = (a + rng.uniform(-10, 10) * d / 90) % 360
        inc.append(round(i, 3))
        azi.append(round(a, 3))
    return md, inc, azi


def gen_survey(rng, hdr, unit="meters", models=MODELS, cov=None):
    md, inc, azi = gen_path(rng)
    s = {"h": hdr, "md": md, "inc": inc, "azi": azi, "kw": {"unit": unit}}
    r = rng.random() if cov is None else cov
    if r < 0.45:
        s["kw"]["error_model"] = rng.choice(models)
    elif r < 0.75:
        s["cov"] = round(rng.uniform(0.5, 3), 2)        # synthetic cov_nev scale
    if rng.random() < 0.5:
        s["kw"]["start_nev"] = [round(rng.uniform(-400, 400), 2) for _ in range(2)] + [
            round(rng.uniform(-50, 80), 2)]
    if rng.random() < 0.25:
        s["kw"]["radius"] = round(rng.uniform(0.1, 0.4), 4)
    elif rng.random() < 0.2:
        s["kw"]["radius"] = rng.choice([0.0, [round(rng.choice([0.0, 0.1, 0.2]) + 0.01 * k, 3)
                                              for k in range(len(md))]])
    if "cov" in s and rng.random() < 0.25:
        s["hla"] = True                                 # errors given along the hole instead
    if rng.random() < 0.06:
        s["rad"] = True                                 # angles given in radians
    if "start_nev" not in s["kw"] and rng.random() < 0.1:
        s["kw"]["start_xyz"] = [round(rng.uniform(-300, 300), 1) for _ in range(2)] + [round(rng.uniform(0, 80), 1)]
    if rng.random() < 0.15 and ("error_model" in s["kw"] or "cov" in s):
        s["start_cov"] = round(rng.uniform(0.1, 2), 2)
    return s


def gen_world(rng, nh=None, ns=None, **k):
    unit = "feet" if rng.random() < 0.1 else "meters"
    nh = nh or rng.choice([1, 1, 2])
    ns = ns or rng.choice([2, 2, 3])
    hs = [gen_header(rng, unit) for _ in range(nh)]
    ss = [gen_survey(rng, rng.randrange(nh), unit, **k) for _ in range(ns)]
    if rng.random() < 0.4 and ns > 1:                   # look-alike wells
        for n in rng.choice([("md",), ("md", "inc"), ("md", "inc", "azi")]):
            m = min(len(ss[0]["md"]), len(ss[1]["md"]))
            for q in ("md", "inc", "azi"):
                ss[0][q], ss[1][q] = ss[0][q][:m], ss[1][q][:m]
            ss[1][n] = list(ss[0][n])
    return {"headers": hs, "surveys": ss, "unit": unit}


# -------------------------------------------------------------------- build

class World:
    pass


def mk_header(spec):
    from welleng.survey import SurveyHeader
    return SurveyHeader(**json.loads(json.dumps(spec)))


def mk_cov(n, scale):
    k = np.arange(n)[:, None, None] * scale
    base = np.array([[2.0, 0.3, 0.1], [0.3, 1.5, 0.2], [0.1, 0.2, 1.0]])
    return base[None] * (0.1 + k)


def survey_args(spec):
    """Fresh caller-owned argument objects for a survey."""
    a = {"md": list(spec["md"]), "inc": list(spec["inc"]), "azi": list(spec["azi"])}
    a.update(json.loads(json.dumps(spec["kw"])))
    if "cov" in spec:
        a["cov_hla" if spec.get("hla") else "cov_nev"] = mk_cov(len(spec["md"]), spec["cov"])
    if spec.get("rad"):
        a["deg"] = False
        for k in ("inc", "azi"):
            a[k] = [round(math.radians(x), 9) for x in a[k]]
    if "start_cov" in spec:
        a["start_cov_nev"] = np.eye(3) * spec["start_cov"]
    for k in a:
        own(a[k], k)
    return a


def mk_survey(spec, header):
    from welleng.survey import Survey
    return Survey(header=header, **survey_args(spec))


def build(w):
    o = World()
    o.spec = w
    o.headers = [mk_header(h) for h in w["headers"]]
    o.surveys = [mk_survey(s, o.headers[s["h"]]) for s in w["surveys"]]
    return o


def snapshot(o):
    return {"shared": [obs_header(h) for h in o.headers],
            "objs": [obs_survey(s) for s in o.surveys]}


# what histcheck asks of a vocabulary module

def build_minimal(w, keep, d=None):
    """Only the surveys in `keep`, each on a header object of its own."""
    o = World()
    o.spec = w
    o.headers = [None] * len(w["headers"])
    o.surveys = [None] * len(w["surveys"])
    for i in keep:
        s = w["surveys"][i]
        o.surveys[i] = mk_survey(s, mk_header(w["headers"][s["h"]]))
    if d is not None and "h" in (d.get("spec") or {}):
        h = d["spec"]["h"]
        if h < len(w["headers"]):
            o.headers[h] = mk_header(w["headers"][h])
    return o


def obs_obj(o, i):
    return obs_survey(o.surveys[i])


def count(w):
    return len(w["surveys"])


def plain(w):
    return []


def outputs(d):
    return []


def ref_shared(w):
    return [obs_header(mk_header(h)) for h in w["headers"]]


def sig(w):
    return [len(s["md"]) for s in w["surveys"]]


def mirror(d, t, w):
    return dict(d, s=(d["s"] + t) % len(w["surveys"]))


def repick(rng, w, d):
    d["s"] = pick_s(rng, w)
    return d


# operations that hand out slices (numpy views) of the survey's own arrays
VIEWS = ()
VARY = True


def simplify(sc, needed):
    w = sc["world"]
    used = {s for d in sc["ops"] for s in needed(d)}
    for i, s in enumerate(w["surveys"]):
        for k in sorted(s["kw"]):
            if k != "unit":
                kw = {a: b for a, b in s["kw"].items() if a != k}
                yield dict(sc, world=dict(w, surveys=w["surveys"][:i] + [dict(s, kw=kw)]
                                          + w["surveys"][i + 1:]))
        if "start_cov" in s:
            c = {a: b for a, b in s.items() if a != "start_cov"}
            yield dict(sc, world=dict(w, surveys=w["surveys"][:i] + [c] + w["surveys"][i + 1:]))
        if len(s["md"]) > 4:
            c = dict(s, md=s["md"][:4], inc=s["inc"][:4], azi=s["azi"][:4])
            yield dict(sc, world=dict(w, surveys=w["surveys"][:i] + [c] + w["surveys"][i + 1:]))
    last = len(w["surveys"]) - 1
    if last > 0 and last not in used and not any("spec" in d for d in sc["ops"]):
        yield dict(sc, world=dict(w, surveys=w["surveys"][:-1]))


# --------------------------------------------------------------- operations

OPS = {}


class Op:
    def __init__(self, name, gen, fn, group, mutates=False):
        self.name, self.gen, self.fn, self.group, self.mutates = name, gen, fn, group, mutates


def op(name, group, gen=None, mutates=False):
    def deco(fn):
        OPS[name] = Op(name, gen or (lambda rng, w: {}), fn, group, mutates)
        return fn
    return deco


def pick_s(rng, w):
    return rng.randrange(len(w["surveys"]))


def gen_op(rng, w, names):
    n = rng.choice(names)
    d = {"op": n, "s": pick_s(rng, w)}
    d.update(OPS[n].gen(rng, _W(w, d["s"])))
    return d


class _W(dict):
    """World spec plus the index of the survey the op is on."""

    def __init__(self, w, s):
        super().__init__(w)
        self.s = w["surveys"][s]
        self.i = s


def run_op(o, d):
    return guard(lambda: OPS[d["op"]].fn(o, o.surveys[d["s"]] if o.surveys else None, d))


def names(*groups):
    return [n for n, v in OPS.items() if v.group in groups]


def opt(rng, p=0.22, **choices):
    """A few of the optional arguments given, the others left at their defaults."""
    return {k: rng.choice(v) for k, v in choices.items() if rng.random() < p}


def _md(rng, w):
    m = w.s["md"]
    r = rng.random()
    if r < 0.2:
        return {"md": rng.choice(m)}
    if r < 0.27:
        return {"md": round(m[-1] + rng.uniform(0.1, 100), 2)}     # beyond TD
    if r < 0.3:
        return {"md": -5.0}
    k = len(m) // 2 if r < 0.6 else rng.randrange(len(m) - 1)           # often the same interval
    return {"md": m[k] if r < 0.36 else round(rng.uniform(m[k], m[min(k + 1, len(m) - 1)]), 3)}


def _tvd(rng, w):
    return {"tvd": round(rng.uniform(0.5, 0.8 * w.s["md"][-1] * 0.6), 2)}


@op("interpolate_md", "query", _md)
def _(o, s, d):
    return obs(s.interpolate_md(d["md"]))


@op("interpolate_md_fn", "query", _md)
def _(o, s, d):
    from welleng.survey import interpolate_md
    return obs(interpolate_md(s, d["md"]))


@op("interpolate_tvd", "query", _tvd)
def _(o, s, d):
    return obs(s.interpolate_tvd(d["tvd"]))


@op("interpolate_survey", "query", lambda r, w: {
    "step": r.choice([25, 40, 70, 110.5]), "kw": opt(r, dls=[1e-8, 1e-4, 0.5])})
def _(o, s, d):
    return obs(s.interpolate_survey(step=d["step"], **d["kw"]))


@op("interpolate_survey_tvd", "query", lambda r, w: {
    "step": r.choice([60, 120, 250]),
    "kw": opt(r, start=[round(r.uniform(1, 200), 1)], stop=[round(r.uniform(200, 900), 1)])})
def _(o, s, d):
    return obs(s.interpolate_survey_tvd(step=d["step"], **d["kw"]))


@op("interpolate_tvd_fn", "query", _tvd)
def _(o, s, d):
    from welleng.survey import interpolate_tvd
    return obs(interpolate_tvd(s, d["tvd"]))


@op("get_nev_arr", "query")
def _(o, s, d):
    return obs(s.get_nev_arr())


@op("project_to_bit", "query", lambda r, w: {
    "dmd": r.choice([5.0, 20.5, 31.0]), "dls": r.choice([None, 0.0, 2.5]),
    "tf": r.choice([None, 0.4])})
def _(o, s, d):
    return obs(s.project_to_bit(d["dmd"], dls=d["dls"], toolface=d["tf"]))


@op("project_to_target", "query", lambda r, w: {
    "off": [round(r.uniform(-300, 300), 1), round(r.uniform(-300, 300), 1),
            round(r.uniform(500, 1200), 1)],
    "dmd": r.choice([None, 15.0]), "dls": r.choice([2.0, 3.0, 5.0]),
    "kw": opt(r, dls=[1.0, 2.5], toolface=[0.4, 3.0], step=[10.0, 30.0, 75.0])})
def _(o, s, d):
    from welleng.node import Node
    t = Node(pos=(np.array([s.n[-1], s.e[-1], s.tvd[-1]]) + np.array(d["off"])).tolist())
    return obs(s.project_to_target(t, dls_design=d["dls"], delta_md=d["dmd"], **d["kw"]))


@op("get_vertical_section", "query", lambda r, w: {
    "azi": round(r.uniform(0, 360), 1), "deg": r.random() < 0.7})
def _(o, s, d):
    a = d["azi"] if d["deg"] else math.radians(d["azi"])
    return obs(s.get_vertical_section(a, deg=d["deg"]))


@op("modified_tortuosity_index", "query", lambda r, w: {
    "data": r.random() < 0.5, "step": r.choice([20.0, 50.0]), "noise": r.choice([1.0, 1.0, None]),
    "kw": opt(r, rtol=[0.1, 2.0], dls_tol=[1e-2, 1e-4], coeff=[0.3048, 2.0], kapa=[10.0])})
def _(o, s, d):
    return _ti(s.modified_tortuosity_index(data=d["data"], step=d["step"], dls_noise=d["noise"], **d["kw"]))


@op("tortuosity_fn", "query", lambda r, w: {
    "which": r.choice(["modified_tortuosity_index", "tortuosity_index"]), "data": r.random() < 0.5,
    "kw": opt(r, rtol=[0.01, 0.1, 2.0], dls_tol=[1e-2, 1e-4], coeff=[0.3048, 2.0], kapa=[10.0])})
def _(o, s, d):
    from welleng import survey
    return _ti(getattr(survey, d["which"])(s, data=d["data"], **d["kw"]))


def _ti(r):
    if isinstance(r, dict):
        return {k: obs(v) for k, v in r.items() if k != "survey"}
    return obs(r)


@op("tortuosity_index", "query", lambda r, w: {
    "data": r.random() < 0.5,
    "kw": opt(r, rtol=[0.1, 2.0], dls_tol=[1e-2, 1e-4], coeff=[1.0], kapa=[10.0])})
def _(o, s, d):
    return _ti(s.tortuosity_index(data=d["data"], **d["kw"]))


@op("directional_difficulty_index", "query", lambda r, w: {"data": r.random() < 0.5})
def _(o, s, d):
    return _ti(s.directional_difficulty_index(data=d["data"]))


@op("maximum_curvature", "query", lambda r, w: {"noise": r.choice([0.5, 1.0, 2.0])})
def _(o, s, d):
    return obs(s.maximum_curvature(dls_noise=d["noise"]))


@op("slice_survey", "query", lambda r, w: {"a": r.randint(0, 1), "n": r.choice([None, 2, 3, 4, 4])})
def _(o, s, d):
    from welleng.survey import slice_survey
    return obs(slice_survey(s, d["a"], None if d["n"] is None else d["a"] + d["n"]))


@op("strip_duplicates", "query")
def _(o, s, d):
    from welleng.exchange.wbp import strip_duplicates
    return obs(strip_duplicates(s))


@op("get_sections", "query", lambda r, w: {"kw": opt(r, rtol=[1e-3, 1.0], atol=[1e-3, 1.0],
                                                     dls_cont=[True])})
def _(o, s, d):
    from welleng.survey import get_sections
    return obs(get_sections(s, **d["kw"]))


@op("survey_to_df", "query")
def _(o, s, d):
    from welleng.survey import survey_to_df
    return obs(survey_to_df(s))


@op("export_df", "query", lambda r, w: {"kw": opt(r, tolerance=[0.01, 2.0], dls_cont=[True], decimals=[1])})
def _(o, s, d):
    from welleng.survey import export_csv
    return obs(export_csv(s, None, **d["kw"]))


@op("get_node", "query", lambda r, w: {"i": r.randint(-2, 3), "kw": opt(r, interpolated=[True])})
def _(o, s, d):
    from welleng.survey import get_node
    return obs(get_node(s, d["i"], **d["kw"]))


@op("get_circle_radius", "query")
def _(o, s, d):
    from welleng.survey import get_circle_radius
    return obs(get_circle_radius(s))


@op("sigmas", "query")
def _(o, s, d):
    from welleng.utils import get_sigmas, NEV_to_HLA
    if s.cov_nev is None:
        return None
    return obs([get_sigmas(s.cov_nev), NEV_to_HLA(s.survey_rad, s.cov_nev)])


@op("error_breakdown", "query")
def _(o, s, d):
    from welleng.error import get_errors, make_diagnostic_data
    if getattr(s, "err", None) is None:
        return None
    return obs([[get_errors(x) for x in s.err.errors.cov_NEVs], make_diagnostic_data(s)])


@op("splice", "query", lambda r, w: {"one": r.random() < 0.2})
def _(o, s, d):
    from welleng.survey import slice_survey, splice_surveys
    if d.get("one"):
        return obs(splice_surveys([s]))
    a = slice_survey(s, 0, 3)
    b = slice_survey(s, 2)
    return obs(splice_surveys([a, b]))


@op("survey_data", "query", lambda r, w: {"o": r.randrange(len(w["surveys"])), "add": r.random() < 0.6})
def _(o, s, d):
    """The container sections of a well are joined in."""
    from welleng.survey import SurveyData
    x = SurveyData(s)
    if d["add"]:
        x.append_survey(o.surveys[d["o"]])
    first = x.get_survey()
    return [obs(first), canon([x.md, x.inc, x.azi, x.radius])]


@op("header_from_dict", "build", lambda r, w: {"spec": gen_header(r, w["unit"])})
def _(o, s, d):
    from welleng.survey import make_survey_header
    return obs_header(make_survey_header(own(json.loads(json.dumps(d["spec"])), "header data")))


@op("mesh", "analysis", lambda r, w: {"verts": r.choice([8, 12]), "sig": r.choice([2.0, 3.0]),
                                      "sm": r.choice([0.0, 1.0]),
                                      "kw": opt(r, sigma_pa=[0.0, 1.5], method=["circle", "pedal_curve"])})
def _(o, s, d):
    from welleng.mesh import WellMesh
    m = WellMesh(s, n_verts=d["verts"], sigma=d["sig"], Sm=d["sm"], **d["kw"])
    return fields(m, ("vertices", "faces", "sigmaH", "sigmaL", "nevs")) | {
        "volume": canon(getattr(getattr(m, "mesh", None), "volume", None))}


def _clearance_kw(r):
    return opt(r, 0.15, k=[2.0, 4.5], sigma_pa=[0.0, 1.0], Sm=[0.0, 1.0], Rr=[0.1, 0.4], Ro=[0.1, 0.4])


@op("iscwsa_clearance", "analysis", lambda r, w: {
    "o": r.randrange(len(w["surveys"])), "min": r.choice([False, False, True]),
    "kop": r.choice([None, None, w.s["md"][1] + 1.0, round(r.uniform(1, 0.7 * w.s["md"][-1]), 1)]),
    "kw": _clearance_kw(r)})
def _(o, s, d):
    from welleng.clearance import IscwsaClearance
    kw = dict(d["kw"]) if d["kop"] is None else dict(d["kw"], kop_depth=d["kop"])
    c = IscwsaClearance(s, o.surveys[d["o"]], minimize_sf=d["min"], **kw)
    return fields(c, ISCWSA_FIELDS) | {"ref": obs_survey(c.ref, False), "off": obs_survey(c.off, False),
                                       "lines": obs(c.get_lines())}


@op("clearance", "analysis", lambda r, w: {
    "o": r.randrange(len(w["surveys"])), "rr": r.choice([0.4572, 0.2]),
    "kop": r.choice([None, w.s["md"][1] + 1.0, w.s["md"][1], round(r.uniform(1, 0.9 * w.s["md"][-1]), 1)]),
    "kw": _clearance_kw(r)})
def _(o, s, d):
    from welleng.clearance import Clearance
    kw = dict(d["kw"], Rr=d["rr"])
    if d["kop"] is not None:
        kw["kop_depth"] = d["kop"]
    c = Clearance(s, o.surveys[d["o"]], **kw)
    return fields(c, ("kop_index", "kop_depth", "ref_nevs", "offset_nevs", "Rr", "Ro", "Sm", "k")) | {
        "ref": obs_survey(c.ref, False), "offset": obs_survey(c.offset, False)}


@op("sf_mins", "analysis", lambda r, w: {"o": r.randrange(len(w["surveys"]))})
def _(o, s, d):
    """The minimum looked for when the clearance is there already, and once more."""
    from welleng.clearance import IscwsaClearance
    c = IscwsaClearance(s, o.surveys[d["o"]], minimize_sf=False)
    a = fields(c, ISCWSA_FIELDS)
    c.get_sf_mins()
    b = fields(c, ISCWSA_FIELDS)
    c.get_sf_mins()
    return [a, b, fields(c, ISCWSA_FIELDS)]


@op("mesh_clearance", "analysis", lambda r, w: {
    "o": r.randrange(len(w["surveys"])), "ret": r.random() < 0.3,
    "kw": opt(r, sigma=[1.0, 3.0], return_data=[False], return_meshes=[True], Sm=[1.0], k=[2.0],
              kop_depth=[w.s["md"][1] + 1.0])})
def _(o, s, d):
    from welleng.clearance import MeshClearance
    c = MeshClearance(s, o.surveys[d["o"]], n_verts=8, **d["kw"])
    return fields(c, ("sf", "distance_cc", "ref_pcr", "off_pcr", "calc_hole", "nev", "off_index", "ref_md",
                      "off_md", "hoz_bearing_deg")) | {
        "hit": [bool(x) if not isinstance(x, (list, tuple)) else bool(x[0]) for x in c.collision],
        "meshes": [canon(m.vertices) for m in getattr(c, "meshes", [])]}


# operations that legitimately change the survey they are applied to

@op("set_vertical_section", "setter", lambda r, w: {
    "azi": round(r.uniform(0, 360), 1), "deg": r.random() < 0.7}, mutates=True)
def _(o, s, d):
    a = d["azi"] if d["deg"] else math.radians(d["azi"])
    s.set_vertical_section(a, deg=d["deg"])
    return obs([s.vertical_section, s.header.vertical_section_azimuth])


@op("get_error", "setter", lambda r, w: {"model": r.choice(MODELS), "ret": r.random() < 0.4},
    mutates=True)
def _(o, s, d):
    r = s.get_error(d["model"], return_error=d["ret"])
    return obs_survey(s) if not d["ret"] else obs([r.errors.cov_NEVs, r.errors.cov_HLAs, s.cov_nev])


ALL_MODELS = [
    "MWD+SRGM", "MWD+SRGM_Fl", "MWD+SRGM+SAG", "MWD+SRGM+SAG_Fl", "MWD+SRGM+AX", "MWD+SRGM+AX_Fl",
    "MWD+SRGM+AX+SAG", "MWD+IFR1", "MWD+IFR1_Fl", "MWD+IFR1+AX", "MWD+IFR1+AX+SAG", "MWD+IFR1+MS",
    "MWD+IFR1+SAG", "MWD+IFR1+SAG+MS", "MWD+IFR1+SAG+MS_Fl", "MWD+IFR2+AX+SAG", "MWD+IFR2+SAG",
    "MWD+IFR2+SAG+MS", "EMS+SRGM", "EMS+SRGM_Fl", "EMS+SRGM+AX", "EMS+SRGM+AX+SAG", "EMS+SRGM+SAG",
    "DIPMETER", "DIPMETER_Fl", "GYRO-MWD", "GYRO-MWD_Fl", "GYRO-NS", "GYRO-NS_Fl", "GYRO-NS-CT",
    "GYRO-NS-CT_Fl", "CB_Film_GMS", "CB_Film_GMS_Fl", "CB_Film_MMS", "CB_Film_MSS", "BLIND",
    "BLIND_Fl", "INC-ONLY", "INC-ONLY_PLANNED_5_DEG", "UNKNOWN", "UNKNOWN_Fl", "ZERO-ERROR", "ISCWSA MWD Rev4",
    "ISCWSA MWD Rev5.11"]


def _models(r, w):
    return {"model": r.choice(ALL_MODELS if r.random() < 0.7 else MODELS), "ret": r.random() < 0.3}


@op("evaluate_model", "errors", _models, mutates=True)
def _(o, s, d):
    r = s.get_error(d["model"], return_error=True)
    return obs([r.errors.cov_NEVs, r.errors.cov_HLAs, r.errors.cov_NEVs_random,
                r.errors.cov_NEVs_systematic, r.errors.cov_NEVs_global, s.cov_nev,
                sorted(r.errors.errors)])


@op("evaluate_model_separately", "errors", _models)
def _(o, s, d):
    """The error model applied to a survey from outside: reads the survey only."""
    from welleng.error import ErrorModel
    r = ErrorModel(s, d["model"])
    return obs([r.errors.cov_NEVs, r.errors.cov_HLAs,
                {k: v.cov_NEV for k, v in r.errors.errors.items()},
                {k: v.e_DIA for k, v in r.errors.errors.items()}])


def _survey_model(r, w):
    s = gen_survey(r, r.randrange(len(w["headers"])), w["unit"], models=ALL_MODELS, cov=0.0)
    if r.random() < 0.5:                                # same depths as a living survey
        m = min(len(s["md"]), len(w.s["md"]))
        for q in ("inc", "azi"):
            s[q] = s[q][:m]
        s["md"] = list(w.s["md"][:m])
    return {"spec": s}


@op("new_survey_model", "errors", _survey_model)
def _(o, s, d):
    return obs_survey(mk_survey(d["spec"], o.headers[d["spec"]["h"]]))


@op("new_survey", "build", lambda r, w: {"spec": gen_survey(r, r.randrange(len(w["headers"])), w["unit"])})
def _(o, s, d):
    return obs_survey(mk_survey(d["spec"], o.headers[d["spec"]["h"]]))


@op("new_survey_same_header", "build", lambda r, w: {"spec": gen_survey(r, 0, w["unit"], cov=0.9)})
def _(o, s, d):
    return obs_survey(mk_survey(d["spec"], s.header))


def _fresh(r, w):
    s = gen_survey(r, r.randrange(len(w["headers"])), w["unit"])
    if r.random() < 0.5:                                # same stations as a living survey
        m = min(len(s["md"]), len(w.s["md"]))
        for q in ("md", "inc", "azi"):
            s[q] = s[q][:m]
        s["md"] = list(w.s["md"][:m])
    w2 = {"headers": w["headers"], "surveys": [s], "unit": w["unit"]}
    return {"spec": s, "sub": gen_op(r, w2, names("query"))}


@op("fresh_query", "build", _fresh)
def _(o, s, d):
    """A survey that lives only for one query (its memory is then reused)."""
    t = World()
    t.surveys = [mk_survey(d["spec"], o.headers[d["spec"]["h"]])]
    t.headers = o.headers
    return run_op(t, d["sub"])


@op("new_header", "build", lambda r, w: {"spec": gen_header(r, w["unit"])})
def _(o, s, d):
    return obs_header(mk_header(d["spec"]))


@op("default_header", "build")
def _(o, s, d):
    from welleng.survey import SurveyHeader
    h = obs_header(SurveyHeader(survey_date="2020-02-02"))
    return h
