"""P09: an internal failure during error-model evaluation is never absorbed
into a smaller uncertainty."""
from sim.histcheck import HistCheck


class P09(HistCheck):
    id = "P09"
    rule = ("one run = 1-3 error-model evaluations, each hit by one injected allocation failure or "
            "user interrupt at a seeded point anywhere in the library code it executes (term "
            "formulas, weighting functions, definition loading, accumulation): it must raise or give "
            "the exact full answer, and the retry must give the exact answer; "
            "distinct = model, operation and failure site")
    weights = {"errors": 1}
    nops = (1, 3)
    p_inject = 1.0
    shots = (1, 1, 2, 3)
    p_repeat = 0.1
    exc_kinds = ("MemoryError", "MemoryError", "KeyboardInterrupt")
    quick_runs = 800
    thorough_runs = 30000
    probes = ("MemoryError", "KeyboardInterrupt")


CHECK = P09()
