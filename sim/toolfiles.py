"""Files of the tool-model tooling: ISCWSA example workbooks, OWSG tool model
workbooks and the definition files converted from them, and diagnostics
listings.  Registers object types and operations with `fileworld`."""
import json
import re
import uuid

from . import fsim
from .compare import canon
from .fileworld import EXPECT, EXT, _cut, _old, _put, _stamp, content, op

_r = lambda rng, a, b, n=2: round(rng.uniform(a, b), n)   # noqa
NEV = ["NN", "EE", "VV", "NE", "NV", "EV"]
HLA = ["HH", "LL", "AA", "HL", "HA", "LA"]
HEAD = {"OWSG Prefix": "owsg_prefix", "Short Name": "short_name", "Long Name": "long_name",
        "Revision No": "revision_no", "Revision Comment": "revision_comment", "Source": "source",
        "Application": "application", "Tool Type": "tool_type", "Status": "status", "Notes": "notes"}
CODES = ["DRFR", "DSFS", "DSTG", "ABXY-TI1S", "ABXY-TI2S", "ABZ", "ASXY-TI1S", "ASZ", "MBXY-TI1S", "MBZ",
         "DECG", "DBHG", "AMIL", "SAG", "XYM1", "XYM3E", "XCLA", "XCLH"]
UNITS = ["m", "1/m", "nT", "m/s2", "deg", "deg/nT", "deg/hr", "rad"]
TEXT = ["plain", "with, comma", "Å – deg → m", "a\nb", "0", "x" * 300]


def _wb(path, fn):
    import openpyxl
    wb = openpyxl.Workbook()
    wb.remove(wb.active)
    fn(wb)
    fsim.S.active = False
    wb.save(path)
    fsim.S.active = True
    _stamp(path)


# ---------------------------------------------------------- example workbooks

def gen_example(rng):
    n = rng.randint(2, 7)
    md, rows = 0.0, []
    inc, azi = 0.0, _r(rng, 0, 359)
    for _ in range(n):
        rows.append([round(md, 2), round(inc, 2), round(azi % 360, 2), _r(rng, 0, 3000),
                     rng.choice([None, _r(rng, 0, 359)])])
        md += rng.choice([30.0, 100.0, _r(rng, 5, 300)])
        inc = min(inc + rng.choice([0, _r(rng, 0, 8)]), 80)
        azi += _r(rng, -5, 5)
    codes = rng.sample(CODES, rng.randint(2, 6))
    terms = [{"no": k + 1, "code": c, "description": rng.choice(TEXT + [None]), "wt_fn": c, "wt_fn_source": rng.choice(
        ["MWD", None]), "type": rng.choice(["Depth", "Sensor", "Align", None]), "magnitude": rng.choice(
        [_r(rng, 0, 5, 6), 0, 150, None]), "unit": rng.choice(UNITS), "propagation": rng.choice("RSGW"),
        "p1": rng.choice([0, 1, None]), "p2": rng.choice([0, 1, None]), "p3": rng.choice([0, 1, None]),
        "wt_fn_comment": rng.choice([None, "note"]), "depth_formula": rng.choice(["MD", "0", None]),
        "inc_formula": rng.choice(["SIN(Inc)", None]), "az_formula": rng.choice(["TAN(Dip)", None]),
        "sing_n_formula": None, "sing_e_formula": rng.choice([None, "E"]), "sing_v_formula": None,
        "convert_deg_to_rad": rng.choice([None, True, False])} for k, c in enumerate(codes)]
    head = {k: rng.choice(TEXT) for k in HEAD if rng.random() < 0.8}
    if "Revision No" in head:
        head["Revision No"] = rng.choice([1, 5, "3"])
    m = {"revs": rng.choice([None, [], ["Notes", "Revision: 1.1", "Revision 5.1", "Revision 5.11", "Revision 5.9"],
                             ["Revision 4.3"]]),
         "head": head, "extra": {k: _r(rng, 0, 9) for k in ("Sheet", "By whom") if rng.random() < 0.5},
         "terms": terms,
         "path": {"well": rng.choice(["ISCWSA No. 1", "w", None]), "latitude": _r(rng, -80, 80), "g": 9.80665,
                  "btotal": _r(rng, 3e4, 6e4), "dip": _r(rng, 40, 80), "declination": _r(rng, -20, 20),
                  "units": rng.choice([None, "m", "ft", "ft"]), "ft": rng.choice([None, 0.3048, 0.304801]),
                  "rows": rows},
         "totals": [[r[0]] + [_r(rng, -9, 99, 4) for _ in range(12)] for r in rows],
         "validation": None if rng.random() < 0.2 else [
             [r[0], c] + [_r(rng, -9, 9, 4) for _ in range(12)] for r in rows for c in codes
             if rng.random() < 0.4],
         "sources": {}, "aux": [x for x in ("CovChart", "drdp", "Aux") if rng.random() < 0.3],
         "layout": rng.sample(["NEV", "HLA"], 2)}
    for c in codes:
        if rng.random() < 0.6:
            blocks = []
            for label, subs in (("dpde", ["D", "I", "A"]), ("e", ["N", "E", "V"]), ("Covariance", NEV),
                                ("Covariance", HLA), ("Sigma e", ["x"])):
                if rng.random() < 0.6:
                    blocks.append([label, subs])
            k = sum(len(b[1]) for b in blocks)
            ln = n + rng.choice([0, 0, 2])                 # some carry template rows below
            m["sources"][c] = {"blocks": blocks, "rows": [
                [rows[i][0] if i < n else 9999.0 + i] + [rng.choice([_r(rng, -5, 5, 5)] * 9 + [None])
                                                        for _ in range(k)] for i in range(ln)]}
    return m


def write_example(m, path):
    def fill(wb):
        if m["revs"] is not None:
            sh = wb.create_sheet("Readme")
            for i, t in enumerate(m["revs"]):
                sh.cell(i + 1, 1, t)
        sh = wb.create_sheet("Model")
        i = 1
        for k, v in list(m["head"].items()) + list(m["extra"].items()):
            sh.cell(i, 1, k + ":")
            sh.cell(i, 2, v)
            i += 1
        for j, k in enumerate(("No", "Code", "Term Description")):
            sh.cell(2, 4 + j, k)
        for i, t in enumerate(m["terms"]):
            for j, v in enumerate(t.values()):
                if v is not None:
                    sh.cell(3 + i, 4 + j, v)
        sh = wb.create_sheet("Wellpath")
        p = m["path"]
        refs = [("Well", p["well"]), ("Latitude (deg)", p["latitude"]), ("G (m/s2)", p["g"]),
                ("BTotal (nT)", p["btotal"]), ("Dip (deg)", p["dip"]), ("Declination (deg)", p["declination"]),
                ("Depth Units", p["units"]), ("Feet to metres", p["ft"])]
        for i, (k, v) in enumerate(refs):
            sh.cell(2 + i, 1, k)
            if v is not None:
                sh.cell(2 + i, 2, v)
        for j, k in enumerate(("MD", "Inc", "Az", "TVD", "TF")):
            sh.cell(2, 5 + j, k)
        for i, r in enumerate(p["rows"]):
            for j, v in enumerate(r):
                if v is not None:
                    sh.cell(3 + i, 5 + j, v)
        sh = wb.create_sheet("TOTALS")
        cols = ["Md"] + sum(({"NEV": NEV, "HLA": HLA}[x] for x in m["layout"]), [])
        sh.cell(1, 1, "totals")
        for j, k in enumerate(cols):
            sh.cell(2, 1 + j, k)
        for i, r in enumerate(m["totals"]):
            for j, v in enumerate(r):
                sh.cell(3 + i, 1 + j, v)
        if m["validation"] is not None:
            sh = wb.create_sheet("Validation")
            sh.cell(1, 3, "Diagnostic")
            for j, k in enumerate(["MD", "Source"] + NEV + NEV):
                sh.cell(2, 1 + j, k)
            for i, r in enumerate(m["validation"]):
                for j, v in enumerate(r):
                    sh.cell(3 + i, 1 + j, v)
        for x in m["aux"]:
            wb.create_sheet(x)["B2"] = 7
        for c, s in m["sources"].items():
            sh = wb.create_sheet(c)
            sh.cell(2, 1, "Md")
            col = 2
            for label, subs in s["blocks"]:
                sh.cell(1, col, label)
                if len(subs) > 1:
                    sh.merge_cells(start_row=1, end_row=1, start_column=col, end_column=col + len(subs) - 1)
                for j, k in enumerate(subs):
                    sh.cell(2, col + j, k)
                col += len(subs)
            for i, r in enumerate(s["rows"]):
                for j, v in enumerate(r):
                    if v is not None:
                        sh.cell(3 + i, 1 + j, v)
    _wb(path, fill)


def _f(v):
    return float("nan") if v is None else float(v)


def model_example(m):
    best = None
    for t in m["revs"] or []:
        x = re.fullmatch(r"Revision (\d+)\.(\d+)", t)
        if x and (best is None or (int(x[1]), int(x[2])) > best[0]):
            best = ((int(x[1]), int(x[2])), t)
    s = lambda v: "" if v is None else str(v)             # noqa
    p = m["path"]
    cols = sum(({"NEV": NEV, "HLA": HLA}[x] for x in m["layout"]), [])
    n = len(p["rows"])
    out = {
        "revision": best and best[1],
        "header": dict({a: m["head"].get(k) for k, a in HEAD.items()},
                       extras={k: v for k, v in m["extra"].items()}),
        "terms": [dict(t, description=s(t["description"]), wt_fn_source=s(t["wt_fn_source"]), type=s(t["type"]),
                       magnitude=_f(t["magnitude"]), convert_deg_to_rad=bool(t["convert_deg_to_rad"]))
                  for t in m["terms"]],
        "wellpath": {"well_name": s(p["well"]), "latitude_deg": p["latitude"], "g": p["g"], "btotal": p["btotal"],
                     "dip_deg": p["dip"], "declination_deg": p["declination"],
                     "stations": [[_f(v) for v in r] for r in p["rows"]],
                     "depth_units": p["units"] or "m", "ft_to_m": p["ft"] or 0.3048},
        "totals": {"md": [r[0] for r in m["totals"]],
                   "nev": [[r[1 + cols.index(c)] for c in NEV] for r in m["totals"]],
                   "hla": [[r[1 + cols.index(c)] for c in HLA] for r in m["totals"]]},
        "validation": [{"md": r[0], "source": r[1], "diagnostic": r[2:8], "calculated": r[8:14]}
                       for r in m["validation"] or []],
        "sources": {},
    }
    for c, x in m["sources"].items():
        blocks, col, seen = {}, 1, {}
        rows = x["rows"][:n]
        for label, subs in x["blocks"]:
            seen[label] = seen.get(label, 0) + 1
            name = label if seen[label] == 1 else f"{label}_{seen[label]}"
            blocks[name] = {k: [_f(r[col + j]) for r in rows] for j, k in enumerate(subs)}
            col += len(subs)
        out["sources"][c] = {"code": c, "md": [r[0] for r in rows], "blocks": blocks}
    return out


def obs_example(x):
    import dataclasses
    d = dataclasses.asdict(x)
    d.pop("path")
    for k in ("revision_date", "checked", "approved"):
        d["header"].pop(k)
    return canon(d)


# --------------------------------------------------------- OWSG tool workbooks

TOOLS = {"MWD": "Magnetic", "EMS": "Magnetic", "Gyro": "Gyroscopic", "FINDS": "Inertial", "BLIND": "Unknown"}
PROP = {"R": "Random", "S": "Systematic", "G": "Global", "W": "Well"}


def gen_owsg(rng):
    sheets = []
    for k in range(rng.randint(1, 4)):
        codes = rng.sample(CODES, rng.randint(1, 5))
        name = f"{rng.choice(['MWD', 'GYRO-NS', 'B00', 'EMS+IFR1', 'X (2)'])}{k}"
        sheets.append({"name": name, "short": rng.choice([name, f"{name} short", None]),
                       "long": rng.choice(TEXT), "prefix": rng.choice([name, "A001Mb", None]),
                       "tool": rng.choice(sorted(TOOLS)), "rev": rng.choice([1, 3, None]),
                       "date": rng.choice([None, "2020-10-08", "8 Oct 2020"]), "inc": rng.choice([[0, 90], [0, 180], [5, 60]]),
                       "terms": [{"code": c, "wtfn": rng.choice([c, c.replace("-", "_")]),
                                  "value": rng.choice([_r(rng, 0, 9, 6), _r(rng, 0, 1, 14), 1.7e-9, 150, 0] * 3 + ["see note", None]),
                                  "units": rng.choice(UNITS * 2 + ["ft", "-"]), "prop": rng.choice("RSGW" * 4 + "B"), "p": [rng.choice([0, 1]) for _ in range(3)],
                                  "f": [rng.choice(["0", 0, "MD", "SIN(Inc) / Gfield", "1", 1, 0.5])
                                        for _ in range(3)],
                                  "sing": [rng.choice([None, 0, "SIN(AzT)"]) for _ in range(3)]} for c in codes]})
    return {"sheets": sheets, "other": rng.random() < 0.4}


def write_owsg(m, path):
    import datetime

    def fill(wb):
        if m["other"]:
            sh = wb.create_sheet("Readme")
            sh["A1"] = "about"
            sh["W3"] = "far"
        for s in m["sheets"]:
            sh = wb.create_sheet(s["name"])
            kv = [("Short Name:", s["short"]), ("Long Name:", s["long"]), ("OWSG Prefix:", s["prefix"]),
                  ("Tool Type:", s["tool"]), ("Revision No:", s["rev"]),
                  ("Revision Date:", s["date"] and (s["date"] if " " in s["date"] else
                                                    datetime.datetime.fromisoformat(s["date"]))),
                  ("Inclination Range Min:", f"{s['inc'][0]} deg"), ("Inclination Range Max:", s["inc"][1])]
            for i, (k, v) in enumerate(kv):
                sh.cell(2 + i, 1, k)
                if v is not None:
                    sh.cell(2 + i, 2, v)
            sh.cell(1, 4, "No")
            sh.cell(1, 22, "Vertical")
            for i, t in enumerate(s["terms"]):
                row = [i + 1, t["code"], "described", t["wtfn"], "src", "Sensor", t["value"], t["units"], t["prop"],
                       *t["p"], None, *t["f"], *t["sing"]]
                for j, v in enumerate(row):
                    if v is not None:
                        sh.cell(2 + i, 4 + j, v)
    _wb(path, fill)


def safe(s):
    return re.sub(r"[^A-Za-z0-9_+\-.]", "_", s)


def _u(x):
    return str(uuid.uuid5(uuid.NAMESPACE_URL, f"welleng/owsg/{x}"))


def model_tool(s, label):
    short = s["short"] or s["name"]
    prefix = s["prefix"] or s["name"]
    txt = lambda v: str(int(v)) if isinstance(v, (int, float)) and float(v).is_integer() else str(v).strip()  # noqa
    sing = lambda v: None if v in (None, 0) else str(v)   # noqa
    return {
        "metadata": {"model_uuid": _u(f"{label}/{prefix}"), "model_id": prefix, "short_name": short,
                     "long_name": s["long"], "revision_number": s["rev"] or 0,
                     "revision_date": s["date"] or "1970-01-01", "tool_type": TOOLS[s["tool"]]},
        "parameters": {"inc_min": s["inc"][0], "inc_max": s["inc"][1]},
        "terms": [{"uuid": _u(f"{label}/{prefix}/{t['code']}"), "name": t["code"],
                   "x_owsg_weight_function": t["wtfn"],
                   "value": float(t["value"]) if isinstance(t["value"], (int, float)) else 0.0, "units": t["units"],
                   "depth_factor": t["p"][0], "inclination_factor": t["p"][1], "azimuth_factor": t["p"][2],
                   "propagation_mode": PROP.get(t["prop"], t["prop"]), "depth_formula": txt(t["f"][0]),
                   "inclination_formula": txt(t["f"][1]), "azimuth_formula": txt(t["f"][2]),
                   "north_singularity": sing(t["sing"][0]), "east_singularity": sing(t["sing"][1]),
                   "vertical_singularity": sing(t["sing"][2])} for t in s["terms"]],
    }


# --------------------------------------------------------- diagnostics listings

NOISE = ["", "ErrorModelDiagnostics", "NEV Covariance Matrix Terms", "Sensor svy 1.0000 2.0000 3.0000",
         "DRFR     dep      0.0000      0.0000      0.3500", "Totals  svy  9.0000  9.0000  9.0000",
         "  1.0  not a station"]


def gen_diag(rng):
    out, md = [], 0.0
    for _ in range(rng.randint(1, 30) if rng.random() < 0.85 else 320):   # some beyond a 64 KB read
        out.append({"md": round(md, 2), "inc": _r(rng, 0, 90), "azi": _r(rng, -10, 360),
                    "sig": {c: [_r(rng, -3, 9, 4) for _ in range(3)] for c in rng.sample(CODES, rng.randint(0, 8))},
                    "noise": rng.choice(NOISE)})
        md += _r(rng, 5, 200)
    return out


def diag_text(m):
    t = []
    for s in m:
        t.append(s["noise"])
        for c, v in s["sig"].items():
            t.append(f"{c:10s} svy  " + "  ".join(f"{x:10.4f}" for x in v) + "   0.0000")
        t.append(f"   {s['md']:.2f}        Inc: {s['inc']:.2f}       Az (True): {s['azi']:.2f}  TF: 0.00")
    return "\n".join(t) + "\n"


# ------------------------------------------------------------------ object types

def _gen_book(fn):
    def g(rng, objs, t):
        o = {"t": t, "m": fn(rng)}
        if rng.random() < 0.12:
            o["cut"] = round(rng.uniform(0.02, 0.98), 4)
        return o
    return g


def _gen_out(rng, objs, t):
    """One converted definition per sheet of a workbook without one yet."""
    done = {(o["book"], o["sheet"]) for o in objs if o["t"] == t}
    todo = [(i, k) for i, o in enumerate(objs) if o["t"] == "owsgbook" for k in range(len(o["m"]["sheets"]))
            if (i, k) not in done]
    if not todo:
        return None
    i, k = todo[0]
    return {"t": t, "book": i, "sheet": k, "old": rng.choice([None, None, "short", "long"]),
            "name": f"tools{i}/{safe(objs[i]['m']['sheets'][k]['name'])}.json"}


def _mk_out(w, s, x):
    import os
    if s["old"]:
        os.makedirs(os.path.dirname(x), exist_ok=True)
        _put(x, _old(s))


EXT["exbook"] = dict(gen=_gen_book(gen_example), ext="xlsx", mk=lambda w, s, x: write_example(s["m"], x), book=True)
EXT["owsgbook"] = dict(gen=_gen_book(gen_owsg), ext="xlsx", mk=lambda w, s, x: write_owsg(s["m"], x), book=True)
EXT["diagfile"] = dict(gen=lambda rng, objs, t: {"t": t, "m": gen_diag(rng)}, ext="txt", book=False,
                       mk=lambda w, s, x: _put(x, diag_text(s["m"])))
EXT["toolout"] = dict(gen=_gen_out, ext="json", mk=_mk_out, book=False)


# -------------------------------------------------------------------- operations

@op("load_example", "example", ["exbook"])
def _(o, a, d):
    from welleng.errors.iscwsa_ingest import load_iscwsa_example
    return obs_example(load_iscwsa_example(a[0]))


EXPECT["load_example"] = lambda w, d, x: model_example(x["m"])


@op("two_examples", "example", ["exbook", "exbook"])
def _(o, a, d):
    from welleng.errors.iscwsa_ingest import load_iscwsa_example
    x, y = load_iscwsa_example(a[0]), load_iscwsa_example(a[1])
    return [obs_example(x), obs_example(y)]


def _both(w, d, x):
    y = w["objs"][d["objs"][1]]
    return "raise" if "cut" in y else [model_example(x["m"]), model_example(y["m"])]


EXPECT["two_examples"] = _both


@op("example_codes", "example", ["exbook"])
def _(o, a, d):
    from welleng.errors.iscwsa_ingest import load_iscwsa_example, to_legacy_codes_dict
    return canon(to_legacy_codes_dict(load_iscwsa_example(a[0])))


def _codes(w, d, x):
    import math
    out = {}
    names = {"R": "random", "S": "systematic", "G": "global", "W": "within_pad"}
    for t in x["m"]["terms"]:
        deg = "deg" in t["unit"]
        out[t["code"]] = {"function": t["wt_fn"].replace("-", "_"), "unit": t["unit"].replace("deg", "rad"),
                          "magnitude": math.radians(_f(t["magnitude"])) if deg else _f(t["magnitude"]),
                          "propagation": names[t["propagation"]]}
    return {"header": {k: v for k, v in x["m"]["head"].items()}, "codes": out}


EXPECT["example_codes"] = _codes


@op("validate_example", "example", ["exbook"], lambda r, w: {
    "model": r.choice(["ISCWSA MWD Rev5.11", "ISCWSA MWD Rev4", "ISCWSA MWD Rev5"])})
def _(o, a, d):
    import dataclasses
    from welleng.errors.iscwsa_validate import validate_workbook
    r = validate_workbook(a[0], d["model"])
    x = dataclasses.asdict(r)
    x.pop("workbook")
    return canon(dict(x, summary=r.summary(), verdict=r.source_pass_fail()))


@op("parse_diag", "diag", ["diagfile"])
def _(o, a, d):
    import dataclasses
    from welleng.errors.copsegrove import parse_copsegrove
    return canon([dataclasses.asdict(s) for s in parse_copsegrove(a[0])])


EXPECT["parse_diag"] = lambda w, d, x: [
    {"md": s["md"], "inc_deg": s["inc"], "azi_deg": s["azi"], "sigmas_svy": s["sig"]} for s in x["m"]]


@op("validate_diag", "diag", ["diagfile"], lambda r, w: {
    "model": r.choice(["owsg_a/GYRO-NS", "owsg_a/GYRO-MWD", "owsg_a/MWD+SRGM", "owsg_b/EMS+IFR1+SAG+MS"])})
def _(o, a, d):
    import dataclasses
    import os
    from welleng.errors import copsegrove_validate as v
    p = os.path.join(os.path.dirname(v.__file__), "iscwsa_json", d["model"] + ".json")
    return canon([dataclasses.asdict(x) for x in v.validate_random_terms(p, a[0])])


def _outs(w, ob):
    return ob + [i for i, o in enumerate(w["objs"]) if o["t"] == "toolout" and o["book"] == ob[0]]


@op("convert_tools", "convert", ["owsgbook"], lambda r, w, ob: {
    "objs": _outs(w, ob), "label": r.choice(["SetA", "SetB"])}, mutates=True)
def _(o, a, d):
    from welleng.errors.tools.owsg_to_json import convert_workbook
    w = convert_workbook(a[0], f"tools{d['objs'][0]}", d["label"])
    docs = [json.loads(content(n)) for n in a[1:]]
    for x in docs:
        x["flagged"] = sum(t.startswith("warn:") for t in x["metadata"]["tags"])
    return [{k: len(v) for k, v in w.items()}, docs]


def flags(s):
    """What the conversion reports about a sheet: cells the definition format cannot hold."""
    return sum((t["units"] not in UNITS) + (t["prop"] not in PROP) + isinstance(t["value"], str)
               for t in s["terms"])


EXPECT["convert_tools"] = lambda w, d, x: [{s["name"]: flags(s) for s in x["m"]["sheets"]}, [
    dict(model_tool(s, d["label"]), flagged=min(flags(s), 5)) for s in x["m"]["sheets"]]]


def gen_clash(rng):
    """Sheets whose names differ only where file names cannot."""
    m = gen_owsg(rng)
    s = m["sheets"][0]
    base = rng.choice(["MWD", "GYRO", "A b", "X"])
    a, b = rng.sample([" ", "_", "!", "~", "="], 2)
    m["sheets"] = [dict(json.loads(json.dumps(s)), name=f"{base}{c}{k}", short=f"tool {j}", prefix=f"A00{j}M")
                   for j, (c, k) in enumerate(rng.sample([(a, "1"), (b, "1"), (a, "2")], rng.choice([2, 3])))]
    return m


EXT["clashbook"] = dict(gen=lambda rng, objs, t: {"t": t, "m": gen_clash(rng)}, ext="xlsx",
                        mk=lambda w, s, x: write_owsg(s["m"], x), book=True)


@op("convert_clash", "convert", ["clashbook"], lambda r, w: {"label": r.choice(["SetA", "SetB"])})
def _(o, a, d):
    import os
    from welleng.errors.tools.owsg_to_json import convert_workbook
    out = f"clash{d['objs'][0]}"
    convert_workbook(a[0], out, d["label"])
    got = [json.loads(content(os.path.join(out, n))) for n in sorted(os.listdir(out))]
    return sorted(([x["metadata"]["short_name"], len(x["terms"])] for x in got), key=str)


EXPECT["convert_clash"] = lambda w, d, x: sorted(
    ([s["short"], len(s["terms"])] for s in x["m"]["sheets"]), key=str)
