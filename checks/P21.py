"""P21: interruption or allocation failure anywhere leaves inputs intact."""
from sim.histcheck import HistCheck


class P21(HistCheck):
    id = "P21"
    rule = ("one run = 1-3 operations of any kind (queries, analyses, setters, constructions), each "
            "interrupted at a seeded point by a user interrupt or allocation failure, retried, and "
            "followed by the rest of the history; the interruption must reach the caller (or the exact "
            "answer be returned), inputs stay as they were, retries give the exact answer; "
            "distinct = operation names and failure sites")
    weights = {"query": 6, "build": 2, "setter": 2, "analysis": 2, "errors": 1}
    nops = (1, 3)
    p_inject = 0.85
    shots = (1, 2, 3, 5)
    exc_kinds = ("MemoryError", "KeyboardInterrupt")
    p_hot = 0.65
    quick_runs = 900
    thorough_runs = 30000
    probes = ("MemoryError", "KeyboardInterrupt")

    def pick_op(self, rng, w):
        d = super().pick_op(rng, w)
        if d["op"] == "mesh_clearance" and rng.random() < 0.9:
            return self.pick_op(rng, w)
        return d


CHECK = P21()
