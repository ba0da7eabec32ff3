"""P03: survey queries are read-only and independent of history."""
from sim.histcheck import HistCheck


class P03(HistCheck):
    id = "P03"
    rule = ("one run = a seeded world of 2-3 surveys (shared or separate headers, look-alike "
            "stations) and 2-7 queries in a row, some failing, some interrupted, some with their "
            "returned arrays overwritten by the caller; every answer is compared with the same query "
            "alone in a pristine process and every survey/header with its original content; "
            "distinct = operation names, station counts and fired faults")
    weights = {"query": 8, "build": 1}
    nops = (2, 7)
    p_inject = 0.08
    p_scribble = 0.12
    quick_runs = 1000
    thorough_runs = 40000
    probes = ("failing_call_in_history", "results_overwritten", "KeyboardInterrupt")


CHECK = P03()
