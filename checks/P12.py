"""P12: saving a well plan."""
from sim.filecheck import FileCheck


class P12(FileCheck):
    id = "P12"
    rule = ("one run = two well plans, a plan file and output files that may already exist, 2-6 saves, "
            "loads and renderings, with disk-full, I/O errors, torn and short writes, failing opens, "
            "process crashes, interrupts, or on interleaved threads; after each, every file is compared "
            "with the fault-free document and failing calls are retried; distinct = operations, fired "
            "faults, schedule digest")
    weights = {"save": 4, "load": 1}
    kinds = [{"out": 2, "plan": 2, "wbpfile": 1, "survey": 1}]
    nops = (2, 6)
    p_io = 0.5
    p_threads = 0.15
    quick_runs = 500
    thorough_runs = 20000
    probes = ("torn", "ENOSPC", "crash")


CHECK = P12()
