"""P17: EDM queries."""
from sim.filecheck import FileCheck


class P17(FileCheck):
    id = "P17"
    rule = ("one run = a database of wells, side tracks, tied surveys, cases and strings, opened once, and "
            "2-9 queries on it or on wells taken from it, some failing or interrupted, or on interleaved "
            "threads; compared with a reference model over the rows and with each query alone on a freshly "
            "opened database; distinct = operations, fired faults, schedule digest")
    weights = {"edm": 1}
    kinds = [{"xmlfile": 1, "edm": 1, "well": 1}, {"xmlfile": 2, "edm": 2, "well": 2}]
    nops = (2, 9)
    p_io = 0.0
    p_inject = 0.1
    p_threads = 0.25
    quick_runs = 600
    thorough_runs = 25000
    probes = ("KeyboardInterrupt", "preempted", "model_compared")


CHECK = P17()
