"""Third workload vocabulary: files on a simulated disk (well plan files, EDM
exports, workbooks, output files) and the objects loaded from or saved to them.

Every child works in a scratch directory of its own (its current directory);
file names are relative, so nothing depends on where the scratch lies."""
import json
import os
import random
import shutil
import tempfile

import numpy as np

from . import forkrun, fsim, world
from .compare import canon, diff
from .owned import guard, own
from .world import Op, fields, gen_header, gen_survey, mk_header, mk_survey, obs, obs_survey

OPS = {}
VIEWS = ()
BOOKS = {}
EXT, EXPECT = {}, {}              # further object types and expectations (toolfiles)
_r = lambda rng, a, b, n=2: round(rng.uniform(a, b), n)   # noqa


# ------------------------------------------------------------ wbp documents

UNITS = {"1": ("feet", "feet"), "2": ("meters", "meters"), "3": ("meters", "feet"),
         "4": ("feet", "meters")}                         # key -> depth, surface
LOC = ["unknown", "surface", "ow_sidetrack", "wp_sidetrack", "look_ahead", "ow_well",
       "complex_extension", "site", "site_based_plan", "compass_well"]
METHOD = {"0": "curve_only", "1": "curve_hold", "2": "opt_align", "9": "something_special"}
DIRTY = {"0": "None", "4": "locked_plan", " ": None}
TTYPE = {"1": "circle", "2": "ellipse", "3": "rectangle"}
WORDS = ["A-1", "North 12", "NO 15/9-F", "well", "Tor H", "S7", "Plan 3 rev B", "Q", "Side track"]


def gen_plan_file(rng):
    m = {"unit": rng.choice("1234"), "comments": [rng.choice(WORDS) for _ in range(rng.randint(0, 2))],
         "blank": rng.random() < 0.15, "targets": [], "plans": []}
    for k in range(rng.choice([0, 0, 1, 2, 3])):
        t = {"name": f"{rng.choice(WORDS)}{rng.choice([' ', ' ', ': ', ':'])}T{k}", "loc": [_r(rng, -9e5, 9e5), _r(rng, 0, 6e6), _r(rng, -4000, 50)],
             "color": rng.randint(0, 255)}
        if rng.random() < 0.15:
            t["color"] = None                             # states no color
        elif rng.random() < 0.3:
            t["long"] = ["12", "Landmark", "Reservoir top"]
        if rng.random() < 0.25:
            t["geom"] = [rng.choice("123"), rng.choice("01"), _r(rng, -500, 500), _r(rng, -500, 500)]
        m["targets"].append(t)
    for k in range(rng.choice([1, 1, 2, 3])):
        p = {"loc": rng.randrange(10), "method": rng.choice("0129"), "dirty": rng.choice("04 "),
             "side": rng.choice(["", "", "ST1", "42"]), "name": f"{rng.choice(WORDS)} {k}",
             "parent": rng.choice(["", "", "Main bore"]), "dls": _r(rng, 0, 9), "ext": _r(rng, 0, 5, 5),
             "steps": []}
        md, inc = 0.0, 0.0
        deep = rng.choice([1, 1, 1, 8])
        e, n, v = _r(rng, 2e5, 8e5), _r(rng, 1e6, 7e6), _r(rng, 0, 60)
        for j in range(rng.randint(1, 6)):
            st = {"md": round(md, 2), "azi": _r(rng, 0, 359), "inc": round(inc, 2), "loc": [e, n, v],
                  "t": "P" if j == 0 or rng.random() < 0.7 else "X"}
            if st["t"] == "P":
                st.update(b=_r(rng, -3, 3), r=_r(rng, -3, 3), d=_r(rng, 0, 6), f=_r(rng, -179, 179))
                if j:
                    st["m"] = rng.choice(["920", "110", "0"])
                    if rng.random() < 0.4:
                        st["target"] = f"{rng.choice(['', '', 'A ', 'B: '])}T{rng.randint(0, 2)}"
            else:
                st.update(cov=[_r(rng, 0, 90, 1) for _ in range(6)], bias=[_r(rng, -1, 1) for _ in range(3)],
                          tool=rng.choice(["MWD", "MWD + SAG", "GYRO 1"]))
            p["steps"].append(st)
            md += rng.uniform(50, 900) * deep
            inc = min(90, inc + rng.uniform(0, 30))
            e, n, v = round(e + rng.uniform(-300, 300), 2), round(n + rng.uniform(-300, 300), 2), \
                round(v - rng.uniform(0, 600), 2)
        m["plans"].append(p)
    if rng.random() < 0.25:                               # blank lines and comments anywhere
        m["noise"] = [[round(rng.random(), 3), rng.choice(["", "", "   ", "! edited by hand"])]
                      for _ in range(rng.choice([1, 2, 5]))]
    return m


def _loc(x):
    return f"L:{x[0]:>13.2f}{x[1]:>13.2f}{x[2]:>11.2f}"


def plan_file_lines(m):
    out = [f"DEPTH {m['unit']}", "! written by the simulator"] + [f"! {c}" for c in m["comments"]]
    if m["blank"]:
        out.append("")
    out.append("TARGETS:")
    for t in m["targets"]:
        out += [f"T:{t['name']}", _loc(t["loc"])]
        if "geom" in t:
            g = t["geom"]
            out.append(f"G:{g[0]}{g[1]}{g[2]:>9.2f}{g[3]:>10.2f}")
        if t["color"] is None:
            continue
        c = f"C:{t['color']:>3}"
        if "long" in t:
            c += f"{t['long'][0]:<5} {t['long'][1]:<10} {t['long'][2]:<42}"
        out.append(c.rstrip())
    out.append("WELLPLANS:")
    for p in m["plans"]:
        out.append((f"W:{p['loc']}{m['unit']}{p['method']}{p['dirty']}   0 123 {p['side']:>7} {p['name']:<60}"
                    f" {p['parent']:<60} {p['dls']:>6.2f} {p['ext']:>7.5f}").rstrip())
        for j, s in enumerate(p["steps"]):
            if s["t"] == "P":
                out.append((f"P: {s['md']:>7.2f} {s['azi']:>7.3f} {s['inc']:>7.3f} {s['b']:>7.3f} {s['r']:>7.3f}"
                            f" {s['d']:>7.3f} {s['f']:>7.2f} {s.get('m', ''):>4} {s.get('target', ''):>10}").rstrip())
            else:
                out.append("X: " + " ".join(f"{v:>8.1f}" for v in s["cov"]) + " "
                           + " ".join(f"{v:>7.2f}" for v in s["bias"]) + f" {s['tool']}")
                out.append(f"S: {s['md']:>7.2f} {s['azi']:>7.3f} {s['inc']:>7.3f}")
            out.append(_loc(s["loc"]))
    for at, text in m.get("noise", ()):
        out.insert(1 + int(at * len(out)), text)
    return out


def model_plans(m):
    """What loading the file has to give (fields the file defines)."""
    d, s = UNITS[m["unit"]]
    out = []
    for k, p in enumerate(m["plans"]):
        q = {"depth_unit": d, "surface_unit": s, "location_type": LOC[p["loc"]],
             "plan_method": METHOD[p["method"]], "dirty_flag": DIRTY[p["dirty"]],
             "sidetrack_id": p["side"] or None, "plan_name": p["name"], "parent_name": p["parent"] or None,
             "dls": p["dls"], "extension": p["ext"], "steps": []}
        for j, x in enumerate(p["steps"]):
            b = {"md": x["md"], "inc": x["inc"], "azi": x["azi"], "location": x["loc"]}
            if x["t"] == "P":
                b.update(build_rate=x["b"], turn_rate=x["r"], dls=x["d"], toolface=x["f"], tie_on=j == 0,
                         method=x.get("m"), target=x.get("target"))
            else:
                c = dict(zip(("cov_xx", "cov_xy", "cov_xz", "cov_yy", "cov_yz", "cov_zz"), x["cov"]))
                c.update(zip(("x_bias", "y_bias", "z_bias"), x["bias"]))
                b.update(c, tool=x["tool"])
            q["steps"].append(b)
        if k == 0:
            q["targets"] = []
            for t in m["targets"]:
                y = {"name": t["name"], "location": t["loc"], "color": t["color"]}
                if "long" in t:
                    y["application"] = t["long"][1]
                if "geom" in t:
                    y["type"] = TTYPE[t["geom"][0]]
                    y["offset"] = t["geom"][2:]
                q["targets"].append(y)
        out.append(q)
    return out


def pick_like(got, want):
    """Project an observation on the fields the model speaks about."""
    if isinstance(want, dict) and isinstance(got, dict):
        return {k: pick_like(got[k], v) if k in got else "<missing>" for k, v in want.items()}
    if isinstance(want, list) and isinstance(got, list) and len(got) == len(want):
        return [pick_like(a, b) for a, b in zip(got, want)]
    return got


def obs_target(t):
    g = t.geometry
    c = dict((g or {}).get("color") or {})
    return {"name": t.name, "location": canon(t.location), "geometry": canon(g),
            "color": c.get("color"), "application": (c.get("application") or "").strip() or None,
            "type": g.get("type"), "offset": canon(g.get("offset"))}


PLAN_FIELDS = ("depth_unit", "surface_unit", "location_type", "plan_method", "dirty_flag", "sidetrack_id",
               "plan_name", "parent_name", "dls", "extension", "parent_data")


def obs_plan(p):
    if world.CAPTURE is not None:
        world.CAPTURE.append(p)
    d = fields(p, PLAN_FIELDS)
    d["steps"] = [{k: canon(v) for k, v in vars(s).items()} for s in p.steps]
    d["targets"] = [obs_target(t) for t in p.targets]
    return d


# -------------------------------------------------------------- EDM exports

def gen_edm(rng):
    """Rows of a small database: sites, wells, wellbores with side tracks, tied
    surveys, cases with their strings, fluids and pressures."""
    rows = []
    nw = rng.randint(1, 2)
    for s in range(rng.randint(1, 2)):
        rows.append(["CD_SITE", {"site_id": f"s{s}", "site_name": f"Site {s}"}])
    nb, used, depths = 0, [], {}
    for w in range(nw):
        wid = f"w{w}"
        rows.append(["CD_WELL", {"well_id": wid, "site_id": "s0", "well_common_name": f"Well {w}"}])
        rows.append(["CD_WELL_ALL", {"well_id": wid, "well_common_name": f"Well {w}"}])
        for k in range(rng.randint(1, 2)):
            rows.append(["CD_DATUM", {"datum_id": f"d{w}{k}", "well_id": wid, "datum_elevation": str(_r(rng, 10, 60))}])
        mine = []
        for k in range(rng.randint(1, 4)):
            b = f"b{nb}"
            nb += 1
            name = f"Bore {b}"
            if used and rng.random() < 0.12:
                name = rng.choice(used)             # names are unique within a well at most
            used.append(name)
            a = {"wellbore_id": b, "wellbore_name": name, "well_id": wid,
                 "hole_size": rng.choice(["8.5", "12.25"])}
            if mine and rng.random() < 0.75:
                a["parent_wellbore_id"] = rng.choice(mine)
            mine.append(b)
            rows.append(["CD_WELLBORE", a])
            hdr = {"survey_header_id": f"h{b}", "wellbore_id": b, "name": f"Survey {b}",
                   "md_max": str(_r(rng, 2000, 4000))}
            if "parent_wellbore_id" in a:
                hdr["tie_survey_header_id"] = "h" + a["parent_wellbore_id"]
                up = depths[a["parent_wellbore_id"]]
                hdr["tie_on_depth"] = rng.choice(up[1:]) if rng.random() < 0.3 else str(_r(rng, 300, 1900))
            rows.append(["CD_SURVEY_HEADER", hdr])
            md = 0.0
            depths[b] = []
            for j in range(rng.randint(3, 6)):
                depths[b].append(str(round(md, 2)))
                rows.append(["CD_SURVEY_STATION", {
                    "survey_header_id": f"h{b}", "wellbore_id": b, "md": str(round(md, 2)),
                    "inclination": str(_r(rng, 0, 80)), "azimuth": str(_r(rng, 0, 359)), "tvd": str(_r(rng, 0, 3000))}])
                md += rng.uniform(200, 900)
            if rng.random() < 0.25:
                hdr["md_max"] = depths[b][-1]
            for j in range(rng.randint(0, 2)):
                c = f"c{b}{j}"
                rows.append(["CD_CASE", {"case_id": c, "case_name": f"Case {c}", "wellbore_id": b, "well_id": wid,
                                         "datum_id": f"d{w}0", "fluid_id": f"f{b}", "scenario_id": f"sc{b}",
                                         "hole_sect_group_id": f"g{b}", "assembly_id": f"a{c}"}])
                rows.append(["CD_ASSEMBLY", {"assembly_id": f"a{c}", "wellbore_id": b, "assembly_name": f"BHA {c}"}])
                for q in range(rng.randint(1, 3)):
                    rows.append(["CD_ASSEMBLY_COMP", {"assembly_id": f"a{c}", "wellbore_id": b,
                                                      "sequence_no": str(q), "length": str(_r(rng, 1, 300))}])
            rows.append(["CD_FLUID", {"fluid_id": f"f{b}", "wellbore_id": b, "density": str(_r(rng, 8, 14))}])
            rows.append(["CD_SCENARIO", {"scenario_id": f"sc{b}", "wellbore_id": b, "name": f"Scenario {b}"}])
            rows.append(["CD_HOLE_SECT_GROUP", {"hole_sect_group_id": f"g{b}", "wellbore_id": b}])
            for q in range(rng.randint(1, 3)):
                rows.append(["CD_HOLE_SECT", {"hole_sect_group_id": f"g{b}", "wellbore_id": b,
                                              "md_hole_sect_top": str(_r(rng, 0, 900)), "hole_size": rng.choice(["8.5", "6"])}])
            for tag, key, val in (("CD_PORE_PRESSURE", "pore_pressure_group_id", "pore_pressure"),
                                  ("CD_FRAC_GRADIENT", "frac_gradient_group_id", "frac_gradient_pressure"),
                                  ("CD_TEMP_GRADIENT", "temp_gradient_group_id", "temperature")):
                if rng.random() < 0.7:
                    for q in range(rng.randint(1, 4)):
                        rows.append([tag, {key: f"{tag[3:5]}{rng.randint(0, 1)}{b}", "wellbore_id": b,
                                           "tvd": str(_r(rng, 0, 3000)), val: str(_r(rng, 1, 20))}])
    head = [x for x in rows if x[0] == "CD_SITE"]
    rest = [x for x in rows if x[0] != "CD_SITE"]
    if rng.random() < 0.4:
        rng.shuffle(rest)
    return head + rest


def edm_text(rows):
    from xml.sax.saxutils import quoteattr
    out = ['<?xml version="1.0" standalone="no"?>', "<export>"]
    for tag, a in rows:
        out.append(f"<{tag} " + " ".join(f"{k}={quoteattr(v)}" for k, v in a.items()) + "/>")
    return "\n".join(out + ["</export>"]) + "\n"


class Edm:
    """Reference model over the rows."""

    def __init__(self, rows):
        self.rows = rows

    def named(self, tag, key):
        return {a[key]: a for t, a in self.rows if t == tag}

    def attributes(self, tags, attrs, logic):
        out = {}
        for t, a in self.rows:
            if tags is not None and t not in (tags if isinstance(tags, list) else [tags]):
                continue
            hit = [k in a and a[k] in (v if isinstance(v, list) else [v]) for k, v in (attrs or {}).items()]
            if not hit or (all(hit) if logic == "AND" else any(hit)):
                out.setdefault(t, []).append(a)
        return out

    def parents(self, b):
        p = {a["wellbore_id"]: a.get("parent_wellbore_id") for t, a in self.rows if t == "CD_WELLBORE"}
        out = []
        while p.get(b):
            b = p[b]
            out.append(b)
        return out

    def data(self, b):
        out = self.attributes(None, {"wellbore_id": b}, "AND")
        out = {k: list(v) for k, v in out.items()}
        well = out["CD_WELLBORE"][0]["well_id"]
        for k, v in self.attributes(["CD_WELL", "CD_DATUM"], {"well_id": well}, "AND").items():
            out.setdefault(k, []).extend(v)
        up = self.parents(b)
        for k, v in self.attributes(["CD_SURVEY_HEADER", "CD_SURVEY_STATION"], {"wellbore_id": up}, "AND").items() \
                if up else ():
            out.setdefault(k, []).extend(v)
        return out

    def sections(self, b):
        out = []
        for _, v in self.data(b).items():
            for row in v:
                if "hole_sect_group_id" in row and row["hole_sect_group_id"] not in out:
                    out.append(row["hole_sect_group_id"])
        return out

    def ties(self, h, b, first=None):
        """Tied surveys from `h` upwards with the depth each starts at."""
        out = {} if first is None else {h: first}
        rows = {r["survey_header_id"]: r for r in self.data(b)["CD_SURVEY_HEADER"]}
        while "tie_survey_header_id" in rows.get(h, {}):
            out[h] = rows[h]["tie_on_depth"]
            h = rows[h]["tie_survey_header_id"]
        return out

    def case(self, c):
        row = self.named("CD_CASE", "case_id")[c]
        b = row["wellbore_id"]
        data = self.data(b)
        out = dict(row)
        for name, tag, key in (
                ("wellbore", "CD_WELLBORE", "wellbore_id"), ("fluid", "CD_FLUID", "fluid_id"),
                ("scenario", "CD_SCENARIO", "scenario_id"), ("well", "CD_WELL", "well_id"),
                ("datum", "CD_DATUM", "datum_id"), ("hole_sect_group", "CD_HOLE_SECT_GROUP", "hole_sect_group_id"),
                ("assembly", "CD_ASSEMBLY_COMP", "assembly_id"), ("hole_sect", "CD_HOLE_SECT", "hole_sect_group_id"),
                ("survey_header", "CD_SURVEY_HEADER", "wellbore_id")):
            if key in row:
                out[name] = [r for r in data[tag] if r[key] == row[key]]
        st = data["CD_SURVEY_STATION"]
        out["survey_station"] = {r["survey_header_id"]: [s for s in st if s["survey_header_id"] == r["survey_header_id"]]
                                 for r in out["survey_header"]}
        out["survey"] = {}
        for r in out["survey_header"]:
            h, bottom, got = r["survey_header_id"], float(r["md_max"]), []
            for up, top in self.ties(h, b, r["md_max"]).items():
                if float(top) < bottom:
                    got += [s for s in st if s["survey_header_id"] == up and float(top) <= float(s["md"]) <= bottom]
                    bottom = float(top)
            out["survey"][h] = sorted(got, key=lambda s: float(s["md"]))
        for tag, key in (("CD_PORE_PRESSURE", "pore_pressure_group_id"), ("CD_FRAC_GRADIENT", "frac_gradient_group_id"),
                         ("CD_TEMP_GRADIENT", "temp_gradient_group_id")):
            if tag in data:
                g = out[tag.lower()[3:]] = {}
                for q in sorted(data[tag], key=lambda q: float(q["tvd"])):
                    g.setdefault(q[key], []).append(q)
        return out

    def profile(self, b, tag, key, val):
        d = self.data(b).get(tag)
        if d is None:
            return None
        out = {}
        for r in d:
            out.setdefault(r[key], []).append([float(r["tvd"]), float(r[val])])
        return {k: sorted(v, key=lambda x: x[0]) for k, v in out.items()}


# --------------------------------------------------------------- workbooks

def gen_book(rng):
    n = rng.randint(1, 3)
    m = {"acr": [0.3, 0.5, 3.5, "Reference", "Offset"][:], "wells": {}}
    m["acr"][0], m["acr"][1], m["acr"][2] = _r(rng, 0.1, 1), _r(rng, 0.1, 1), _r(rng, 2, 4)
    for k in range(n + 1):
        name = "Reference well" if k == 0 else f"{k:02d} - well"
        rows = [[_r(rng, 0, 4000), _r(rng, 0, 90), _r(rng, 0, 359)] + [_r(rng, 0, 3000) for _ in range(3)]
                + [_r(rng, 0, 20) for _ in range(3)] for _ in range(rng.randint(2, 12))]
        if rng.random() < 0.6:
            rows[0] = [0] * len(rows[0])                  # tied on at the surface
        for r in rows:
            for j in range(len(r)):
                x = rng.random()
                if x < 0.06:
                    r[j] = rng.choice([0, 0.0, round(r[j]), -r[j], r[j] / 3])
                elif x < 0.08 and j:
                    r[j] = None
        x = m["wells"][name] = {"rows": rows}
        if k:
            x["sf"] = [rng.choice([0, 0.0, None, 1]) if rng.random() < 0.08 else _r(rng, 0.2, 9) for _ in rows]
        if rng.random() < 0.3:                            # remarks, empty and unnumbered rows among the stations
            x["gaps"] = [[rng.randint(0, len(rows)), rng.choice([None, "end of listing", ""])]
                         for _ in range(rng.choice([1, 1, 2, 4]))]
    m["other"] = rng.random() < 0.4
    if rng.random() < 0.4:
        m["order"] = rng.getrandbits(16)                  # sheets in another order
    return m


def sheet_rows(x):
    rows = [list(r) for r in x["rows"]]
    for at, text in x.get("gaps", ()):
        rows.insert(at, [text] + [None] * 3)
    return rows


COLS = ("MD", "IncDeg", "AziDeg", "TVD", "N", "E", "sigmaH", "sigmaL", "sigmaA")


def write_book(m, path):
    import openpyxl
    wb = openpyxl.Workbook()
    wb.remove(wb.active)
    if m["other"]:
        wb.create_sheet("Read me")["A1"] = "notes"
    for name, x in m["wells"].items():
        sh = wb.create_sheet(name)
        sh["A1"] = name
        for i, r in enumerate(sheet_rows(x)):
            for j, v in enumerate(r):
                sh.cell(17 + i, 2 + j, v)
        if name == "Reference well":
            for c, v in zip(("I4", "I5", "I6", "I7", "I8"), m["acr"]):
                sh[c] = v
        else:
            cl = wb.create_sheet(f"{name[:5]}clearance")
            for i, v in enumerate(x["sf"]):
                cl.cell(5 + i, 15, v)
                cl.cell(5 + i, 16, "x")
    if "order" in m:
        random.Random(m["order"]).shuffle(wb._sheets)
    wb.save(path)


def model_book(m):
    a = m["acr"]
    out = {"acr": {"Sm": a[0], "sigmapa": a[1], "k": a[2], "reference_h_and_c": a[3], "offset_h_and_c": a[4]},
           "wells": {}}
    for name, x in m["wells"].items():
        w = {c: [r[j] for r in x["rows"]] for j, c in enumerate(COLS)}
        if "sf" in x:
            w["SF"] = list(x["sf"])
        out["wells"][name] = w
    return out


# ------------------------------------------------------------------ worlds

def gen_obj(rng, t, objs):
    if t == "wbpfile":
        return {"t": t, "m": gen_plan_file(rng)}
    if t == "xmlfile":
        o = {"t": t, "rows": gen_edm(rng)}
        if rng.random() < 0.12:
            o["cut"] = round(rng.random(), 4)             # torn by a crash of the exporting program
        return o
    if t == "bookfile":
        o = {"t": t, "m": gen_book(rng)}
        if rng.random() < 0.15:
            o["cut"] = round(rng.uniform(0.02, 0.98), 4)
        return o
    if t in ("out", "outcsv"):
        return {"t": t, "old": rng.choice([None, "short", "long"])}
    if t in ("survey", "plan"):
        o = {"t": t, "spec": gen_survey(rng, 0), "hdr": gen_header(rng)}
        if t == "plan":
            o["kw"] = {"plan_name": rng.choice(WORDS), "location_type": rng.choice(LOC),
                       "parent_name": rng.choice([None, "Main bore"]), "plan_method": rng.choice(["curve_only", "curve_hold"]),
                       "sidetrack_id": rng.choice([None, "ST2"]), "dls": _r(rng, 1, 5), "extension": _r(rng, 0, 2, 5)}
            if rng.random() < 0.08:
                o["kw"]["location_type"] = "nowhere"      # cannot be written
            r = rng.random()
            if r < 0.25:                                  # deep wells, map coordinates
                o["spec"]["md"] = [round(v * 12, 2) for v in o["spec"]["md"]]
            if r < 0.15 or r > 0.85:
                o["spec"]["kw"]["start_nev"] = [_r(rng, 1e5, 7e6), _r(rng, -2e5, 9e5), _r(rng, -200, 4000)]
            o["units"] = rng.choice([["meters", "meters"], ["feet", "feet"], ["meters", "feet"]])
            o["tg"] = [[f"T{k}", [_r(rng, 0, 999), _r(rng, 0, 999), _r(rng, -999, 0)],
                         rng.choice([None, rng.randint(0, 99), rng.randint(0, 255)])]
                       for k in range(rng.choice([0, 0, 1, 2]))]
        return o
    if t in ("edm", "well"):
        x = rng.choice([i for i, o in enumerate(objs) if o["t"] == "xmlfile"])
        o = {"t": t, "f": x}
        if t == "well":
            o["b"] = rng.choice([a["wellbore_id"] for tag, a in objs[x]["rows"] if tag == "CD_WELLBORE"])
        return o
    return EXT[t]["gen"](rng, objs, t)


def gen_world(rng, kinds):
    objs = []
    for t, n in kinds.items():
        for _ in range(n):
            o = gen_obj(rng, t, objs)
            if o is not None:
                objs.append(o)
    return {"objs": objs, "buf": rng.choice([0, 0, 64, 512]), "date": "2024-02-29T23:59:58"}


class World:
    pass


def _enter(w):
    from . import clock
    d = tempfile.mkdtemp(prefix="simdisk-", dir="/tmp")
    forkrun.CLEANUP.append(lambda: shutil.rmtree(d, ignore_errors=True))
    os.chdir(d)
    clock.ACTIVE = clock.Clock(w["date"])
    fsim.configure([d], w["buf"])
    fsim.begin()


def path(w, i):
    s = w["objs"][i]
    if s["t"] in EXT:
        return s.get("name") or f"f{i}.{EXT[s['t']]['ext']}"
    return f"f{i}.{ {'xmlfile': 'xml', 'bookfile': 'xlsx', 'outcsv': 'csv'}.get(w['objs'][i]['t'], 'wbp')}"


STAMP = [1_000_000_000]


def _stamp(name):
    """Distinct, increasing modification times."""
    STAMP[0] += 5
    os.utime(name, (STAMP[0], STAMP[0]))


def _put(name, text):
    with fsim._open(name, "wb") as f:
        f.write(text if isinstance(text, bytes) else text.encode())
    _stamp(name)


def _cut(name, frac):
    with fsim._open(name, "rb") as f:
        b = f.read()
    _put(name, b[:int(len(b) * frac)].rstrip())


def _old(s):
    return {"short": "older\n", "long": "".join(f"older line {k}\n" for k in range(4000))}[s["old"]]


class Failed:
    def __init__(self, e):
        self.what = type(e).__name__


def _mk(w, i, cache):
    if i in cache:
        return cache[i]
    s = w["objs"][i]
    t = s["t"]
    x = path(w, i)
    if t == "wbpfile":
        _put(x, "\n".join(plan_file_lines(s["m"])) + "\n")
    elif t == "xmlfile":
        _put(x, edm_text(s["rows"]))
    elif t == "bookfile":
        _write_book(s["m"], x)
    elif t in ("out", "outcsv"):
        if s["old"]:
            _put(x, _old(s))
    elif t == "survey":
        x = mk_survey(s["spec"], mk_header(s["hdr"]))
    elif t == "plan":
        x = new_plan(mk_survey(s["spec"], mk_header(s["hdr"])), s)
    elif t == "edm":
        from welleng.exchange.edm import EDM
        try:
            x = EDM(_mk(w, s["f"], cache))
        except Exception as e:                            # noqa
            x = Failed(e)
    elif t == "well":
        from welleng.exchange.edm import EDM
        try:
            x = EDM(_mk(w, s["f"], cache)).get_wellbore(s["b"])
        except Exception as e:                            # noqa
            x = Failed(e)
    elif t in EXT:
        EXT[t]["mk"](w, s, x)
    if "cut" in s:
        _cut(x, s["cut"])
    if t == "bookfile" or EXT.get(t, {}).get("book"):
        BOOKS[x] = content(x)                             # archives carry the time of writing
    cache[i] = x
    return x


def _write_book(m, x):
    fsim.S.active = False
    write_book(m, x)
    fsim.S.active = True
    _stamp(x)


def new_plan(survey, s):
    from welleng.exchange.wbp import Target, WellPlan
    p = WellPlan(survey=survey, depth_unit=s["units"][0], surface_unit=s["units"][1], **s["kw"])
    for name, loc, col in s["tg"]:
        p.targets.append(Target(name, list(loc)))
        p.targets[-1].geometry["color"]["color"] = col
    return p


def build(w):
    o = World()
    o.spec = w
    _enter(w)
    cache = {}
    o.objs = [_mk(w, i, cache) for i in range(len(w["objs"]))]
    fsim.begin()
    return o


def build_minimal(w, keep, d=None):
    o = World()
    o.spec = w
    _enter(w)
    cache = {}
    o.objs = [None] * len(w["objs"])
    for i in keep:
        o.objs[i] = _mk(w, i, cache)
    fsim.begin()
    return o


def content(name):
    try:
        with fsim._open(name, "rb") as f:
            return f.read()
    except FileNotFoundError:
        return None


def obs_any(x):
    t = type(x).__name__
    if t == "Failed":
        return {"failed": x.what}
    if t == "WellPlan":
        return obs_plan(x)
    if t == "EDM":
        import xml.etree.ElementTree as ET
        return {"tree": ET.tostring(x.root).decode(), "names": dict(x.wellbore_id_to_name),
                "ids": dict(x.wellbore_name_to_id), "wells": dict(x.well_id_to_wellbore_id)}
    if t == "Well":
        return {"id": x.wellbore_id, "name": x.wellbore_name, "data": obs_any(x.well_data)}
    if t == "Case":
        return {k: obs_any(v) for k, v in vars(x).items()}
    if t == "Graph":
        return {"nodes": sorted(x.nodes), "edges": sorted(sorted(e) for e in x.edges)}
    if t == "Survey":
        return obs_survey(x)
    if t in ("dict", "OrderedDict"):
        return {str(k): obs_any(v) for k, v in x.items()}
    if t in ("list", "tuple"):
        return [obs_any(v) for v in x]
    return obs(x)


def obs_obj(o, i):
    t = o.spec["objs"][i]["t"]
    if t == "bookfile" or EXT.get(t, {}).get("book"):
        return {"intact": content(path(o.spec, i)) == BOOKS[path(o.spec, i)]}
    if t in ("wbpfile", "xmlfile", "out", "outcsv") or t in EXT:
        return {"bytes": content(path(o.spec, i))}
    return obs_any(o.objs[i])


def count(w):
    return len(w["objs"])


def snapshot(o):
    return {"objs": [obs_obj(o, i) for i in range(len(o.objs))], "shared": []}


def plain(w):
    return [i for i, s in enumerate(w["objs"]) if s["t"] in ("wbpfile", "xmlfile")]


def ref_shared(w):
    return []


def sig(w):
    return [s["t"] for s in w["objs"]]


def _other(w, i, t):
    same = [k for k, x in enumerate(w["objs"]) if x["t"] == w["objs"][i]["t"]]
    return same[(same.index(i) + t) % len(same)]


def mirror(d, t, w):
    ob = [_other(w, i, t) for i in d["objs"]]
    if OPS[d["op"]].group == "convert":
        ob = toolfiles._outs(w, ob[:1])
    return dict(d, objs=ob, s=ob[0])


def repick(rng, w, d):
    return mirror(d, rng.randint(0, 2), w)


def simplify(sc, needed):
    w = sc["world"]
    for i, s in enumerate(w["objs"]):
        def put(x):
            return dict(sc, world=dict(w, objs=w["objs"][:i] + [x] + w["objs"][i + 1:]))
        if s["t"] == "xmlfile":
            n = len(s["rows"])
            k = n // 2
            while k:
                for a in range(0, n, k):
                    yield put(dict(s, rows=s["rows"][:a] + s["rows"][a + k:]))
                k //= 2
        if s["t"] == "wbpfile":
            for q in ("comments", "targets", "plans"):
                for k in range(len(s["m"][q])):
                    if q != "plans" or len(s["m"][q]) > 1:
                        yield put(dict(s, m=dict(s["m"], **{q: s["m"][q][:k] + s["m"][q][k + 1:]})))
    if w["buf"]:
        yield dict(sc, world=dict(w, buf=0))


# -------------------------------------------------------------- operations

def op(name, group, types, gen=None, mutates=False):
    def deco(fn):
        o = OPS[name] = Op(name, gen or (lambda rng, w: {}), fn, group, mutates)
        o.types = types
        return fn
    return deco


def names(*groups):
    return [n for n, v in OPS.items() if v.group in groups]


def gen_op(rng, w, pool):
    have = {}
    for i, s in enumerate(w["objs"]):
        have.setdefault(s["t"], []).append(i)
    pool = [n for n in pool if all(t in have for t in OPS[n].types)]
    n = rng.choice(pool)
    ob = [rng.choice(have[t]) for t in OPS[n].types]
    d = {"op": n, "s": ob[0], "objs": ob}
    g = OPS[n].gen
    d.update(g(rng, w) if g.__code__.co_argcount == 2 else g(rng, w, ob))
    return d


def run_op(o, d):
    a = [o.objs[i] for i in d["objs"]]
    if any(isinstance(x, Failed) for x in a):
        return "argument could not be built"
    return guard(lambda: OPS[d["op"]].fn(o, a, d))


def outputs(d):
    """Files the operation may write."""
    if OPS[d["op"]].group == "convert":
        return d["objs"][1:]
    return [d["s"]] if OPS[d["op"]].mutates and OPS[d["op"]].group in ("save", "csv") else []


def touched(d):
    """Objects a mutating operation changes."""
    return d["objs"][1:] if OPS[d["op"]].group == "convert" else [d["s"]]


# another program replaces an input file

def _tweak(r, x):
    """The same content with one value changed."""
    x = json.loads(json.dumps(x))
    if isinstance(x, list):                               # rows of a database
        t, a = r.choice(x)
        k = r.choice([q for q in sorted(a) if not q.endswith("_id")] or sorted(a))
        a[k] = a[k] + "0" if not k.endswith("_id") else a[k]
    elif "plans" in x:
        q = r.choice(r.choice(x["plans"])["steps"])
        q["md"] = round(q["md"] + 1.25, 2)
        q["loc"][r.randrange(3)] += 1.5
    return x


@op("replace_wbp", "replace", ["wbpfile"], lambda r, w, ob: {
    "m": _tweak(r, w["objs"][ob[0]]["m"]) if r.random() < 0.5 else gen_plan_file(r)}, mutates=True)
def _(o, a, d):
    _put(a[0], "\n".join(plan_file_lines(d["m"])) + "\n")


@op("replace_xml", "replace", ["xmlfile"], lambda r, w, ob: {
    "rows": _tweak(r, w["objs"][ob[0]]["rows"]) if r.random() < 0.5 else gen_edm(r)}, mutates=True)
def _(o, a, d):
    _put(a[0], edm_text(d["rows"]))


@op("replace_book", "replace", ["bookfile"], lambda r, w: {"m": gen_book(r)}, mutates=True)
def _(o, a, d):
    _write_book(d["m"], a[0])
    BOOKS[a[0]] = content(a[0])


def current(w, ops):
    """The world after the replacements among `ops`."""
    objs = list(w["objs"])
    for d in ops:
        if OPS[d["op"]].group == "replace":
            x = {k: v for k, v in objs[d["s"]].items() if k != "cut"}
            x.update({k: d[k] for k in ("m", "rows") if k in d})
            objs[d["s"]] = x
    return dict(w, objs=objs)


# well plan files

@op("load_wbp", "load", ["wbpfile"])
def _(o, a, d):
    from welleng.exchange import wbp
    return [obs_plan(p) for p in wbp.load(a[0])]


@op("load_twice", "load", ["wbpfile", "wbpfile"])
def _(o, a, d):
    """Both results are kept: neither may change when the other is loaded."""
    from welleng.exchange import wbp
    x, y = wbp.load(a[0]), wbp.load(a[1])
    return [[obs_plan(p) for p in x], [obs_plan(p) for p in y]]


@op("edit_loaded", "load", ["wbpfile", "wbpfile"], lambda r, w: {"k": r.randrange(3)})
def _(o, a, d):
    """One loaded plan is edited: the others, of this file and another, keep their content."""
    from welleng.exchange import wbp
    ps = wbp.load(a[0]) + wbp.load(a[1])
    x = ps.pop(d["k"] % len(ps))
    before = [obs_plan(p) for p in ps]
    for t in x.targets:
        t.name, t.location = "moved", [1.0, 2.0, 3.0]
        t.geometry["color"]["color"], t.geometry["type"] = -1, "edited"
    x.targets.append(wbp.Target("added"))
    x.steps[0].md = -1.0
    x.steps[0].location[0] = -1.0
    x.steps.append(x.steps[0])
    e = diff([obs_plan(p) for p in ps], before, "plan")
    fresh = wbp.Target("new")
    return [e, [fresh.name, canon(fresh.geometry.get("type")), len(wbp.load(a[0]))]]


@op("load_export", "load", ["wbpfile"])
def _(o, a, d):
    """Export of loaded plans, loaded once more."""
    from welleng.exchange import wbp
    ps = wbp.load(a[0])
    return [wbp.export(ps), wbp.export(ps[-1], comments=["x"])]


@op("load_parent", "load", ["wbpfile"])
def _(o, a, d):
    from welleng.exchange import wbp
    return wbp.get_parent_survey(a[0])


@op("new_plan", "load", ["survey"], lambda r, w: {k: v for k, v in gen_obj(r, "plan", []).items()
                                                  if k in ("kw", "units", "tg")})
def _(o, a, d):
    return obs_plan(new_plan(a[0], d))


@op("plan_lines", "load", ["plan"], lambda r, w: {"c": r.choice([None, ["by me", "twice"]])})
def _(o, a, d):
    from welleng.exchange import wbp
    return obs(wbp.export(a[0], comments=d["c"]))


@op("wbp_sections", "load", ["survey"])
def _(o, a, d):
    from welleng.survey import get_sections
    return obs(get_sections(a[0]))


@op("save_plan", "save", ["out", "plan"], lambda r, w: {"c": r.choice([None, ["by me", "twice"]])}, mutates=True)
def _(o, a, d):
    from welleng.exchange import wbp
    return obs(wbp.export(a[1], a[0], comments=d["c"]))


@op("save_plans", "save", ["out", "plan", "plan"], mutates=True)
def _(o, a, d):
    from welleng.exchange import wbp
    return obs(wbp.export([a[1], a[2]], filename=a[0]))


@op("save_loaded", "save", ["out", "wbpfile"], mutates=True)
def _(o, a, d):
    from welleng.exchange import wbp
    return obs(wbp.export(wbp.load(a[1]), filename=a[0]))


@op("save_lines", "save", ["out"], lambda r, w: {"doc": [r.choice(WORDS) * r.choice([1, 40])
                                                        for _ in range(r.choice([0, 1, 5, 300]))]}, mutates=True)
def _(o, a, d):
    from welleng.exchange import wbp
    return obs(wbp.save_to_file(d["doc"], a[0]))


@op("save_child", "save", ["out", "survey", "wbpfile"], mutates=True)
def _(o, a, d):
    from welleng.exchange import wbp
    p = wbp.WellPlan(survey=a[1], plan_name="child", location_type="wp_sidetrack", parent_wbp_file=a[2])
    return [obs(wbp.export(p, a[0])), canon(p.surface_datum), canon(p.env_local)]


@op("load_saved", "save", ["out"])
def _(o, a, d):
    from welleng.exchange import wbp
    return [obs_plan(p) for p in wbp.load(a[0])]


@op("roundtrip", "save", ["out", "plan"], mutates=True)
def _(o, a, d):
    """A plan saved and loaded: both as seen by the caller."""
    from welleng.exchange import wbp
    wbp.export(a[1], a[0])
    return [as_written(a[1]), [as_written(p) for p in wbp.load(a[0])]]


@op("roundtrip_both", "save", ["out", "plan", "plan"], mutates=True)
def _(o, a, d):
    from welleng.exchange import wbp
    wbp.export([a[1], a[2]], a[0], comments=["two"])
    x = [as_written(a[1]), as_written(a[2])]
    x[1].update(units=x[0]["units"], targets=[])        # stated once per file, with the first
    return [x, [as_written(p) for p in wbp.load(a[0])]]


@op("rewrite", "save", ["out", "wbpfile"], mutates=True)
def _(o, a, d):
    """A loaded file saved and loaded again."""
    from welleng.exchange import wbp
    x = wbp.load(a[1])
    wbp.export(x, a[0])
    return [[as_written(p) for p in x], [as_written(p) for p in wbp.load(a[0])]]


def as_written(p):
    """The part of a plan that its file states, numbers included."""
    d = fields(p, ("location_type", "plan_method", "plan_name", "dls", "extension"))
    d["units"] = [p.depth_unit, p.surface_unit]
    for k in ("sidetrack_id", "parent_name"):
        d[k] = getattr(p, k) or None
    d["steps"] = []
    for i, s in enumerate(p.steps):
        x = {"md": float(s.md), "inc": float(s.inc), "azi": float(s.azi), "location": canon(list(s.location))}
        if hasattr(s, "build_rate"):
            x.update(build_rate=float(s.build_rate), turn_rate=float(s.turn_rate), dls=float(s.dls),
                     toolface=float(s.toolface), method=s.method if i else None, target=s.target or None)
        else:
            x.update(fields(s, ("cov_xx", "cov_xy", "cov_xz", "cov_yy", "cov_yz", "cov_zz", "x_bias", "y_bias",
                                "z_bias", "tool")))
        d["steps"].append(x)
    d["targets"] = [{k: v for k, v in obs_target(t).items() if k in ("name", "location", "color")}
                    for t in p.targets]
    return d


# csv

@op("save_csv", "csv", ["outcsv", "survey"], lambda r, w: {
    "tol": r.choice([0.1, 0.5]), "dec": r.choice([1, 3, 5]), "dls": r.random() < 0.3,
    "kw": r.choice([{}, {"author": "me"}])}, mutates=True)
def _(o, a, d):
    from welleng.exchange.csv import export_csv
    return obs(export_csv(a[1], a[0], tolerance=d["tol"], dls_cont=d["dls"], decimals=d["dec"], **d["kw"]))


@op("listing", "csv", ["outcsv", "survey"], lambda r, w: {
    "tol": r.choice([0.1, 0.5]), "dec": r.choice([1, 3, 5]), "dls": r.random() < 0.3,
    "kw": r.choice([{}, {"author": "me"}])}, mutates=True)
def _(o, a, d):
    """Export, and compare what the file says with the survey and the table."""
    from welleng.exchange.csv import export_csv
    export_csv(a[1], a[0], tolerance=d["tol"], dls_cont=d["dls"], decimals=d["dec"], **d["kw"])
    table = export_csv(a[1], None, tolerance=d["tol"], dls_cont=d["dls"])
    with open(a[0]) as f:
        lines = f.read().splitlines()
    i = lines.index(",".join(table.columns))
    told = [f"author, {d['kw'].get('author', 'Jonny Corcutt')}"] + [f"{k}, {v}" for k, v in vars(a[1].header).items()]
    want = np.asarray(table.values, dtype=float)
    got = np.array([[float(v) for v in x.split(",")] for x in lines[i + 1:]]).reshape(-1, want.shape[1])
    near = got.shape == want.shape and np.allclose(got, want, rtol=1e-12, atol=0.51 * 10 ** -d["dec"], equal_nan=True)
    s = a[1]
    ends = [[want[k][j] - v for j, v in enumerate((s.md[k], s.inc_deg[k], s.azi_grid_deg[k], s.n[k], s.e[k], -s.tvd[k]))]
            for k in (0, -1)]
    return {"header lines missing": [x for x in told if x not in lines[:i]], "rows are the table's": bool(near),
            "off the survey's ends": [round(float(abs(np.array(x)).max()), 6) for x in ends]}


@op("save_survey", "csv", ["outcsv", "survey"], mutates=True)
def _(o, a, d):
    return obs(a[1].save(a[0]))


@op("frame_csv", "csv", ["survey"], lambda r, w: {"tol": r.choice([0.1, 0.5]), "dls": r.random() < 0.3})
def _(o, a, d):
    from welleng.exchange.csv import export_csv
    return obs(export_csv(a[0], None, tolerance=d["tol"], dls_cont=d["dls"]))


@op("csv_survey", "csv", ["survey"])
def _(o, a, d):
    from welleng.survey import export_csv
    x = export_csv(a[0], None)
    return obs([x, export_csv(a[0], None, tolerance=0.2)])


# EDM

def _bores(w, i):
    x = w["objs"][i]
    rows = (w["objs"][x["f"]] if "f" in x else x)["rows"]
    return [a["wellbore_id"] for t, a in rows if t == "CD_WELLBORE"]


def _cases(w, i):
    x = w["objs"][i]
    rows = w["objs"][x["f"]]["rows"]
    c = [a["case_id"] for t, a in rows if t == "CD_CASE" and ("b" not in x or a["wellbore_id"] == x["b"])]
    return c or ["none"]


@op("edm_open", "edmfile", ["xmlfile"])
def _(o, a, d):
    from welleng.exchange.edm import EDM
    return obs_any(EDM(a[0]))


@op("edm_open_query", "edmfile", ["xmlfile"], lambda r, w, ob: {"b": r.choice(_bores(w, ob[0]) or ["x"])})
def _(o, a, d):
    from welleng.exchange.edm import EDM
    return obs_any(EDM(a[0]).get_wellbore(d["b"]))


for _n in ("get_wells", "get_sites", "get_wellbore_ids", "get_tags", "get_wellbore_graph"):
    def _f(o, a, d, _n=_n):
        return obs_any(getattr(a[0], _n)())
    op("edm_" + _n, "edm", ["edm"])(_f)


def _gen_attr(r, w, ob):
    rows = w["objs"][w["objs"][ob[0]]["f"]]["rows"]
    tags = sorted({t for t, _ in rows})
    q = {}
    for _ in range(r.choice([0, 1, 1, 2, 2, 3])):
        t, a = r.choice(rows)
        k = r.choice(sorted(a))
        q[k] = a[k] if r.random() < 0.7 else [a[k], "zz"]
    return {"tags": r.choice([None, r.choice(tags), r.sample(tags, min(3, len(tags)))]), "at": q,
            "logic": r.choice(["AND", "AND", "OR"])}


@op("edm_attributes", "edm", ["edm"], _gen_attr)
def _(o, a, d):
    return obs_any(a[0].get_attributes(d["tags"], d["at"], d["logic"]))


def _gen_bore(r, w, ob):
    return {"b": r.choice(_bores(w, ob[0]) or ["x"]) if r.random() < 0.95 else "nobody"}


def _gen_named(r, w, ob):
    d = _gen_bore(r, w, ob)
    x = w["objs"][ob[0]]
    rows = (w["objs"][x["f"]] if "f" in x else x)["rows"]
    name = {a["wellbore_id"]: a["wellbore_name"] for t, a in rows if t == "CD_WELLBORE"}.get(d["b"], "nobody")
    d["name"] = name if r.random() < 0.4 else None
    if d["name"] and d["b"] != "nobody":
        d["b"] = [a["wellbore_id"] for t, a in rows if t == "CD_WELLBORE" and a["wellbore_name"] == name][-1]
    return d


@op("edm_parents", "edm", ["edm"], _gen_bore)
def _(o, a, d):
    return list(a[0].get_parents(d["b"]))


@op("edm_wellbore_data", "edm", ["edm"], _gen_bore)
def _(o, a, d):
    return obs_any(a[0].get_wellbore_data(d["b"]))


@op("edm_wellbore", "edm", ["edm"], lambda r, w, ob: _gen_named(r, w, ob))
def _(o, a, d):
    x = a[0].get_wellbore(d["name"] or d["b"], name=bool(d["name"]))
    return [obs_any(x), x.get_hole_sections(), obs_any(x.get_ppfpt_data())]


@op("edm_case_name", "edm", ["edm"], lambda r, w, ob: {"c": r.choice(_cases(w, ob[0]))})
def _(o, a, d):
    return a[0].get_case_name_from_id(d["c"])


@op("edm_case_of", "edm", ["edm"], lambda r, w, ob: {"c": r.choice(_cases(w, ob[0]))})
def _(o, a, d):
    rows = a[0].get_attributes("CD_CASE", {"case_id": d["c"]})["CD_CASE"]
    return obs_any(a[0].get_wellbore(rows[0]["wellbore_id"]).make_case(d["c"]))


@op("well_case", "edm", ["well"], lambda r, w, ob: {"c": r.choice(_cases(w, ob[0]))})
def _(o, a, d):
    return obs_any(a[0].make_case(d["c"]))


@op("well_parent_surveys", "edm", ["well"], lambda r, w, ob: {"h": "h" + r.choice(_bores(w, ob[0]) or ["x"])})
def _(o, a, d):
    return obs_any(a[0].get_parent_surveys(d["h"]))


@op("well_sections", "edm", ["well"], lambda r, w: {"all": r.random() < 0.5})
def _(o, a, d):
    s = a[0].get_hole_sections()
    return [s, obs_any(a[0].get_hole_section_data(None if d["all"] else s[:1]))]


@op("well_profiles", "edm", ["well"])
def _(o, a, d):
    return obs_any(a[0].get_ppfpt_data())


# workbooks

@op("import_book", "book", ["bookfile"])
def _(o, a, d):
    from welleng.io import import_iscwsa_collision_data
    return obs_any(import_iscwsa_collision_data(a[0]))


# ----------------------------------------------------- absolute expectations

from . import toolfiles                                   # noqa: E402,F401

VIEWS = tuple(n for n, v in OPS.items() if v.group in ("edm", "edmfile", "replace"))


def expected(w, d):
    """What the operation has to return on a sound disk, from the file's model
    alone; None when the model says nothing; "raise" when it must not succeed."""
    x = w["objs"][d["objs"][0]]
    n = d["op"]
    if OPS[n].group == "replace":
        return None
    if "f" in x and "cut" in w["objs"][x["f"]]:
        return None
    if "cut" in x:
        return "raise"
    if n == "load_wbp":
        return model_plans(x["m"])
    if n == "load_twice":
        return [model_plans(x["m"]), model_plans(w["objs"][d["objs"][1]]["m"])]
    if n == "import_book":
        return model_book(x["m"])
    if n in EXPECT:
        return EXPECT[n](w, d, x)
    if n == "edm_open":
        b = [a for t, a in x["rows"] if t == "CD_WELLBORE"]
        return {"names": {a["wellbore_id"]: a["wellbore_name"] for a in b},
                "ids": {a["wellbore_name"]: a["wellbore_id"] for a in b},
                "wells": {a["wellbore_id"]: a["well_id"] for a in b}}
    if n == "edit_loaded":
        return [None, "<any>"]
    if n == "listing":
        return {"header lines missing": [], "rows are the table's": True, "off the survey's ends": [0.0, 0.0]}
    if OPS[n].group != "edm" or "f" not in x:
        return None
    m = Edm(w["objs"][x["f"]]["rows"])
    bores = _bores(w, d["objs"][0])
    if n == "edm_get_wells":
        return m.named("CD_WELL_ALL", "well_common_name")
    if n == "edm_get_sites":
        return m.named("CD_SITE", "site_name")
    if n == "edm_get_wellbore_ids":
        return m.named("CD_WELLBORE", "wellbore_name")
    if n == "edm_get_tags":
        return sorted({t for t, _ in m.rows})
    if n == "edm_attributes":
        return m.attributes(d["tags"], d["at"], d["logic"])
    if n == "edm_parents":
        return m.parents(d["b"])
    if n == "edm_get_wellbore_graph":
        b = [a for t, a in m.rows if t == "CD_WELLBORE"]
        e = {tuple(sorted((a["parent_wellbore_id"], a["wellbore_id"]))) for a in b if "parent_wellbore_id" in a}
        return {"nodes": sorted({a["wellbore_id"] for a in b} | {v for p in e for v in p}),
                "edges": sorted(list(p) for p in e)}
    if n == "edm_case_name":
        return m.named("CD_CASE", "case_id").get(d["c"], {}).get("case_name")
    if n in ("edm_wellbore_data", "edm_wellbore") and d["b"] in bores:
        data = m.data(d["b"])
        if n == "edm_wellbore_data":
            return data
        if d["name"] and m.named("CD_WELLBORE", "wellbore_name").get(d["name"], {}).get("wellbore_id") != d["b"]:
            return None
        return [{"id": d["b"], "name": m.named("CD_WELLBORE", "wellbore_id")[d["b"]]["wellbore_name"], "data": data},
                m.sections(d["b"]), _profiles(m, d["b"])]
    if n == "well_profiles":
        return _profiles(m, x["b"])
    if n in ("edm_case_of", "well_case") and d["c"] != "none" and d["c"] in (
            _cases(w, d["objs"][0]) if n == "well_case" else m.named("CD_CASE", "case_id")):
        return m.case(d["c"])                             # cases of other wellbores are not specified
    if n == "well_parent_surveys" and d["h"][1:] in bores:
        return m.ties(d["h"], x["b"])
    if n == "well_sections":
        return [m.sections(x["b"]), "<any>"]
    return None


def _profiles(m, b):
    return {"pore_pressure": m.profile(b, "CD_PORE_PRESSURE", "pore_pressure_group_id", "pore_pressure"),
            "fracture_pressure": m.profile(b, "CD_FRAC_GRADIENT", "frac_gradient_group_id", "frac_gradient_pressure"),
            "temperature": m.profile(b, "CD_TEMP_GRADIENT", "temp_gradient_group_id", "temperature")}
