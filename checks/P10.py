"""P10: clearance and mesh analyses are isolated from everything else."""
from sim.histcheck import HistCheck


class P10(HistCheck):
    id = "P10"
    rule = ("one run = 2-3 wells with covariances and 2-5 clearance / mesh analyses and queries on "
            "them (each well both as reference and as offset), sequential with interruptions or on "
            "interleaved threads; answers and well states compared with each analysis alone; "
            "distinct = operation names, station counts, schedule digest")
    weights = {"analysis": 8, "query": 2, "setter": 1}
    nops = (2, 5)
    p_threads = 0.3
    p_inject = 0.15
    shots = (1, 2, 3)
    p_opcode = 0.05
    quick_runs = 380
    thorough_runs = 9000
    exc_kinds = ("KeyboardInterrupt", "MemoryError")
    probes = ("preempted", "KeyboardInterrupt")

    def gen_world(self, rng):
        from sim import world
        return world.gen_world(rng, cov=rng.choice([0.2, 0.6, 0.6, 0.9]))

    def pick_op(self, rng, w):
        d = super().pick_op(rng, w)
        if d["op"] == "mesh_clearance" and rng.random() < 0.8:
            return self.pick_op(rng, w)
        return d


CHECK = P10()
