"""P01: headers under magnetic-service faults."""
import math

from sim import magcheck as M


class P01(M.MagCheck):
    id = "P01"
    rule = ("one run = 1-4 survey headers with random supplied/missing magnetic fields, dates and "
            "locations, built in sequence or by interleaved threads against a scripted faulty "
            "service and clock; non-trivial when a fault fired or several headers share the process")
    quick_runs = 5000
    thorough_runs = 60000
    probes = ("second_request_made", "answer_delivered")

    def gen_build(self, rng, k):
        return M.gen_header_build(rng, k)

    def judge(self, sc, b, j, r):
        kw = b["kw"]
        loc = (kw.get("latitude", M.REF[0]), kw.get("longitude", M.REF[1]), kw.get("altitude", M.REF[2]))
        reqs = M.own_requests(b, loc, r, r["windows"][j])
        out = r["rec"][j]
        if self.interrupted(reqs):
            if out[0] != "raise" or out[1] != "KeyboardInterrupt":
                yield "interrupt-swallowed", f"user interrupt during the lookup ended as {str(out)[:120]}"
            return
        if out[0] != "ok":
            yield "construction-failed", f"raised {out[1]}: {out[2]}"
            return
        h = out[1]
        deg = kw.get("deg", True)
        rad = math.radians if deg else (lambda v: v)
        for n in ("name", "latitude", "longitude", "altitude", "survey_date", "azi_reference", "G", "earth_rate",
                  "grid_scale_factor", "depth_unit", "surface_unit"):
            if n in kw and h[n] != kw[n]:
                yield f"supplied-{n}-changed", f"{n}: gave {kw[n]!r}, header has {h[n]!r}"
        if "survey_date" not in kw and h["survey_date"] not in r["dates"][j]:
            yield "default-date", f"date {h['survey_date']!r} not the current date {r['dates'][j]}"
        if h["defaults_arg"] != kw.get("mag_defaults"):
            yield "supplied-defaults-changed", f"mag_defaults {h['defaults_arg']!r}"
        for n in ("convergence", "vertical_section_azimuth", "vertical_inc_limit"):
            if n in kw and not M.close(h[n], rad(kw[n])):
                yield f"supplied-{n}-changed", f"{n}: gave {kw[n]!r} (deg={deg}), header has {h[n]!r}"
        if "b_total" in kw and not M.close(h["b_total"], kw["b_total"]):
            yield "supplied-b_total-changed", f"b_total {h['b_total']!r}"
        for n in ("dip", "declination"):
            if n in kw and not M.close(h[n], rad(kw[n])):
                yield f"supplied-{n}-changed", f"{n}: gave {kw[n]!r} (deg={deg}), header has {h[n]!r}"
        miss = [n for n in ("b_total", "dip", "declination") if n not in kw]
        if not miss:
            return
        d = kw.get("mag_defaults") or M.DOC_DEFAULTS
        deflt = {"b_total": d["b_total"], "dip": math.radians(-d["dip"]),
                 "declination": math.radians(d["declination"])}
        ans = []
        for f in M.allowed_answers(M.told(b, loc, r, r["windows"][j]), loc, h["survey_date"], r["dates"][j]):
            ans.append({"b_total": f[0], "dip": math.radians(-f[1]),
                        "declination": math.radians(f[2])})
        want = ans or [deflt]
        if not any(all(M.close(h[n], w[n]) for n in miss) for w in want):
            yield "magnetic-values", (f"missing {miss}: header has {[h[n] for n in miss]}, "
                                      f"expected one of {[[w[n] for n in miss] for w in want]}")


CHECK = P01()
