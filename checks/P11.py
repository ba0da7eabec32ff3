"""P11: well planning answers are isolated and independent of global random state."""
from sim.histcheck import HistCheck


class P11(HistCheck):
    id = "P11"
    mod = "callworld"
    rule = ("one run = a seeded pool of nodes, positions, vectors, connectors and surveys and 2-6 "
            "planning calls (connect, chain, interpolate, extend to depth, drop off, project, survey "
            "from connectors) in a process whose global random generators are seeded differently from "
            "the reference's; sequential with interruptions or on interleaved threads; answers, inputs "
            "and the global random state are compared; distinct = operation names, pool kinds, fired "
            "faults, schedule digest")
    weights = {"plan": 1}
    nops = (2, 6)
    p_threads = 0.3
    p_inject = 0.15
    shots = (1, 2, 3)
    exc_kinds = ("KeyboardInterrupt", "MemoryError")
    quick_runs = 400
    thorough_runs = 25000
    probes = ("KeyboardInterrupt", "preempted")

    def gen_world(self, rng):
        from sim import callworld
        return callworld.gen_world(rng, {"pos": 2, "vec": 2, "node": 3, "target": 2, "conn": 2, "pts": 1,
                                         "header": 1, "survey": 1})


CHECK = P11()
