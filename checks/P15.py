"""P15: exporting a survey listing."""
from sim.filecheck import FileCheck


class P15(FileCheck):
    id = "P15"
    rule = ("one run = two surveys and two csv files that may already exist, 2-5 exports to file or to a "
            "table, with disk faults, process crashes, interrupts, or on interleaved threads; distinct = "
            "operations, fired faults, schedule digest")
    weights = {"csv": 1}
    kinds = [{"outcsv": 2, "survey": 2}]
    nops = (2, 5)
    p_io = 0.5
    p_threads = 0.15
    quick_runs = 600
    thorough_runs = 12000
    probes = ("torn", "ENOSPC", "crash")


CHECK = P15()
