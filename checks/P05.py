"""P05: arguments handed to the library are never modified."""
from sim.histcheck import HistCheck

KINDS = [
    {"pos": 2, "vec": 2, "pts": 1, "num": 2, "sv": 2, "vecs": 2, "cov": 2},
    {"args": 2, "header": 2, "survey": 2, "pos": 1, "vec": 1},
    {"pos": 2, "vec": 2, "pts": 1, "node": 3, "target": 2, "conn": 2, "header": 1, "survey": 1},
]


class P05(HistCheck):
    id = "P05"
    mod = "callworld"
    rule = ("one run = a seeded pool of caller-owned arguments (arrays, lists, nodes, connectors, "
            "headers, surveys) passed to 2-8 public functions, some calls failing or interrupted, or "
            "two threads sharing the pool; after every call every argument is compared with its "
            "original content and every answer with the call alone on fresh arguments; distinct = "
            "operation names, pool kinds, fired faults, schedule digest")
    weights = {"util": 2, "build": 4, "plan": 3}
    nops = (2, 8)
    p_threads = 0.15
    p_inject = 0.12
    shots = (1, 2, 3)
    exc_kinds = ("KeyboardInterrupt", "MemoryError")
    quick_runs = 360
    thorough_runs = 40000
    probes = ("KeyboardInterrupt", "failing_call_in_history", "preempted")

    def gen_world(self, rng):
        from sim import callworld
        return callworld.gen_world(rng, rng.choice(KINDS))

    def pick_op(self, rng, w):
        from sim import callworld
        have = {x["t"] for x in w["objs"]}
        pool = [n for n, o in callworld.OPS.items() if all(t in have for t in o.types)
                for _ in range(self.weights.get(o.group, 0))]
        return callworld.gen_op(rng, w, pool)



CHECK = P05()
