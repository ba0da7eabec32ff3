"""P13: loading well plan files."""
from sim.filecheck import FileCheck


class P13(FileCheck):
    id = "P13"
    rule = ("one run = two or three generated plan files, 2-7 loads (some kept while others run), "
            "re-exports and new plans, with read errors, short reads, failing opens, interrupts, or on "
            "interleaved threads; loaded plans are compared with the model the file was written from and "
            "with each load alone; distinct = operations, fired faults, schedule digest")
    weights = {"load": 1}
    kinds = [{"wbpfile": 3, "plan": 1, "survey": 1}, {"wbpfile": 2}]
    nops = (2, 7)
    p_threads = 0.2
    quick_runs = 900
    thorough_runs = 20000
    probes = ("EIO", "short", "model_compared")


CHECK = P13()
