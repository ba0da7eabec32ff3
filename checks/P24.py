"""P24: converting tool model workbooks to definition files."""
from sim.filecheck import FileCheck


class P24(FileCheck):
    id = "P24"
    rule = ("one run = one or two generated tool model workbooks (some cut short), converted 1-3 times into "
            "definition files that may already exist, with disk-full, I/O errors, torn and short writes, "
            "failing opens, process crashes and interrupts; after each, every file is compared with the "
            "fault-free one and the definition with the values in the workbook; failing conversions are "
            "retried; distinct = operations, fired faults")
    weights = {"convert": 1}
    kinds = [{"owsgbook": 1, "toolout": 9}, {"owsgbook": 2, "toolout": 9},
             {"owsgbook": 1, "toolout": 9, "clashbook": 1}]
    nops = (1, 3)
    p_io = 0.6
    quick_runs = 350
    thorough_runs = 8000
    probes = ("EIO", "ENOSPC", "torn", "crash", "model_compared", "torn_input")


CHECK = P24()
