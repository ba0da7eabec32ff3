"""P20: torque, drag, hookload and fluid analyses are isolated."""
from sim.histcheck import HistCheck


class P20(HistCheck):
    id = "P20"
    mod = "callworld"
    rule = ("one run = 1-2 cases (well, hole, string) and fluids and 2-5 analyses sharing them, "
            "sequential with interruptions or on interleaved threads; answers and inputs compared with "
            "each analysis alone; distinct = operation names, fired faults, schedule digest")
    weights = {"td": 1}
    nops = (2, 5)
    p_threads = 0.35
    p_inject = 0.12
    shots = (1, 2, 3)
    exc_kinds = ("KeyboardInterrupt", "MemoryError")
    quick_runs = 900
    thorough_runs = 15000
    probes = ("KeyboardInterrupt", "preempted", "analysis_succeeded")

    def gen_world(self, rng):
        from sim import callworld
        return callworld.gen_world(rng, {"tdcase": rng.choice([1, 2]), "fluid": 1, "num": 1})

    def extra(self, sc, refs, r, bad, probes):
        """A complete hole and string can always be analysed."""
        for d, ref in zip(sc["ops"], refs):
            out = ref.get("out")
            if out is None or d["op"] not in ("torque_drag", "torque_drag_two_fluids",
                                              "torque_drag_loads", "hookload"):
                continue
            if out[0] == "ok":
                probes["analysis_succeeded"] = 1
            else:
                bad(f"fails:{d['op']}", f"{d['op']} of a complete hole and string raised {out[1:]}")


CHECK = P20()
