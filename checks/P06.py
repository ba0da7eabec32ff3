"""P06: concurrent callers get the answers of sequential ones."""
from sim.histcheck import HistCheck


class P06(HistCheck):
    id = "P06"
    rule = ("one run = 2-3 simulated threads issuing 3-8 queries, constructions and error-model "
            "evaluations on shared surveys under a seeded line/bytecode-level schedule; every answer "
            "is compared with the operation alone, shared state with its original; "
            "distinct = operation names and schedule digest")
    weights = {"query": 7, "build": 3, "errors": 2, "setter": 1}
    nops = (3, 8)
    p_threads = 1.0
    p_opcode = 0.25
    p_repeat = 0.4
    quick_runs = 800
    thorough_runs = 30000
    probes = ("preempted",)

    def gen_world(self, rng):
        """Mostly wells with as many stations as each other."""
        w = super().gen_world(rng)
        if rng.random() < 0.7:
            n = min(len(s["md"]) for s in w["surveys"])
            for s in w["surveys"]:
                for q in ("md", "inc", "azi"):
                    s[q] = s[q][:n]
        return w


CHECK = P06()
