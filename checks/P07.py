"""P07: an error model evaluation depends on its survey and model only."""
from sim.histcheck import HistCheck


class P07(HistCheck):
    id = "P07"
    rule = ("one run = 2-6 error-model evaluations (all tool models; through the survey, on the "
            "survey from outside, or while constructing surveys) over 2-3 wells that may share "
            "headers and depths, in sequence or on interleaved threads; every covariance and every "
            "error source is compared with that evaluation alone in a pristine process; "
            "distinct = operation names, station counts, schedule digest")
    weights = {"errors": 8, "query": 1}
    nops = (2, 6)
    p_threads = 0.35
    p_inject = 0.08
    p_opcode = 0.1
    quick_runs = 800
    thorough_runs = 20000
    probes = ("preempted", "KeyboardInterrupt")


CHECK = P07()
