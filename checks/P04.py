"""P04: surveys that share a header stay independent of each other."""
from sim.histcheck import HistCheck


class P04(HistCheck):
    id = "P04"
    rule = ("one run = 2-3 surveys on one shared header (sometimes a second header) and 2-7 operations "
            "mixing setters (vertical section, re-computed error model), construction of further "
            "surveys/headers on the same header and queries, in sequence or on interleaved threads; "
            "expected state of each survey = that survey alone with only its own setters; "
            "distinct = operation names, station counts, schedule digest")
    weights = {"setter": 5, "build": 4, "query": 4}
    nops = (2, 7)
    p_threads = 0.25
    p_inject = 0.06
    quick_runs = 900
    thorough_runs = 30000
    probes = ("preempted",)

    def gen_world(self, rng):
        from sim import world
        nh = 1 if rng.random() < 0.8 else 2
        return world.gen_world(rng, nh=nh, ns=rng.choice([2, 3]))


CHECK = P04()
