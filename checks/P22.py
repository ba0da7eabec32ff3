"""P22: answers do not depend on the process environment."""
from sim.envcheck import EnvCheck


class P22(EnvCheck):
    id = "P22"
    rule = ("one run = a seeded world of surveys, call arguments, files or tool models and 1-4 operations, "
            "executed in a pristine process and again in an interpreter with another hash seed, locale, "
            "time zone, date, random state, heap layout, collector setting, working directory and calling "
            "thread; answers and objects compared, process-wide settings, descriptors and working "
            "directory compared before and after every operation, some of them interrupted; distinct = "
            "operation names, changed environment parts, fired faults")
    quick_runs = 400
    thorough_runs = 25000
    probes = ("answered", "KeyboardInterrupt", "MemoryError", "called from a worker thread")


CHECK = P22()
