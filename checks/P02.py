"""P02: map coordinates -> header parameters under magnetic-service faults."""
from sim import magcheck as M


class P02(M.MagCheck):
    id = "P02"
    rule = ("one run = 1-4 map look-ups (shared or separate converter objects, several projections) "
            "in sequence or interleaved, against a scripted faulty service and clock; non-trivial "
            "when a fault fired or several look-ups share the process")
    quick_runs = 5000
    thorough_runs = 40000
    probes = ("answer_delivered",)

    def gen_build(self, rng, k):
        return M.gen_param_build(rng, k)

    def run(self, sc):
        self._ref = M.proj_ref(sc)
        return super().run(sc)

    def judge(self, sc, b, j, r):
        kw = b["kw"]
        lat, lon, conv, scale = self._ref[j]
        loc = (lat, lon, kw.get("altitude", 0))
        reqs = M.own_requests(b, loc, r, r["windows"][j])
        out = r["rec"][j]
        if self.interrupted(reqs):
            if out[0] != "raise" or out[1] != "KeyboardInterrupt":
                yield "interrupt-swallowed", f"user interrupt during the lookup ended as {str(out)[:120]}"
            return
        if out[0] != "ok":
            yield "lookup-failed", f"raised {out[1]}: {out[2]}"
            return
        d = out[1]
        for n, w in (("x", kw["x"]), ("y", kw["y"]), ("easting", kw["x"]), ("northing", kw["y"]),
                     ("latitude", lat), ("longitude", lon), ("convergence", conv),
                     ("scale_factor", scale)):
            if not M.close(d.get(n), w):
                yield f"map-{n}", f"{n}={d.get(n)!r}, expected {w!r}"
        date = d.get("date")
        if kw.get("date") is not None and date != kw["date"]:
            yield "supplied-date-changed", f"date {date!r}, gave {kw['date']!r}"
        if kw.get("date") is None and date not in r["dates"][j]:
            yield "default-date", f"date {date!r}, clock {r['dates'][j]}"
        sgn = -1 if "down" in sc["units"] else 1
        want = [(f[0], f[2], sgn * f[1]) for f in M.allowed_answers(M.told(b, loc, r, r["windows"][j]), loc, date, r["dates"][j])]
        got = (d.get("magnetic_field_intensity"), d.get("declination"), d.get("dip"))
        if want:
            if not all(M.close(a, w) for a, w in zip(got, want[0])):
                yield "magnetic-values", f"got {got}, service answered {want[0]}"
        elif any(v is not None for v in got):
            yield "magnetic-values", f"no usable answer, yet got {got}"


CHECK = P02()
