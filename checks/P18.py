"""P18: importing clearance workbooks on a failing disk."""
from sim.filecheck import FileCheck


class P18(FileCheck):
    id = "P18"
    rule = ("one run = one or two generated workbooks (some cut short), imported 1-3 times with read "
            "errors, short reads, failing opens and interrupts; compared with the values written; "
            "distinct = operations, fired faults")
    weights = {"book": 1}
    kinds = [{"bookfile": 2}]
    nops = (1, 3)
    p_io = 0.5
    quick_runs = 650
    thorough_runs = 10000
    probes = ("EIO", "short", "model_compared", "torn_input")


CHECK = P18()
