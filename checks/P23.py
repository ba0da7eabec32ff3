"""P23: ISCWSA example workbooks and diagnostics listings."""
from sim.filecheck import FileCheck


class P23(FileCheck):
    id = "P23"
    rule = ("one run = generated ISCWSA example workbooks (some cut short) or diagnostics listings, loaded, "
            "translated and validated 1-4 times with read errors, short reads, failing opens, interrupts, "
            "caller-overwritten results or on interleaved threads; compared with the values written and "
            "with each operation alone; distinct = operations, fired faults, schedule digest")
    weights = {"example": 1, "diag": 1}
    kinds = [{"exbook": 2}, {"exbook": 2}, {"diagfile": 2}]
    nops = (1, 4)
    p_io = 0.45
    p_threads = 0.12
    quick_runs = 600
    thorough_runs = 10000
    probes = ("EIO", "short", "model_compared", "torn_input")

    def exc_for(self, d):                 # a validation report lists any exception as a failed term
        return ("KeyboardInterrupt",) + ("MemoryError",) * ("validate" not in d["op"])


CHECK = P23()
