"""P16: opening EDM exports on a failing disk."""
from sim.filecheck import FileCheck


class P16(FileCheck):
    id = "P16"
    rule = ("one run = two EDM exports (some cut short by a crash of the program that wrote them), opened "
            "and queried 2-6 times with read errors, short reads, failing opens and interrupts; compared "
            "with the rows the file was written from; distinct = operations, fired faults, schedule digest")
    weights = {"edmfile": 1}
    kinds = [{"xmlfile": 2}]
    nops = (2, 6)
    p_io = 0.5
    p_threads = 0.15
    quick_runs = 1100
    thorough_runs = 20000
    probes = ("EIO", "short", "model_compared", "torn_input")


CHECK = P16()
