"""P14: a saved well plan loads back."""
from sim.filecheck import FileCheck


class P14(FileCheck):
    id = "P14"
    rule = ("one run = two well plans, a plan file and two output files, 2-5 saves and loads of them, with "
            "disk faults, crashes, interrupts and retries, or on interleaved threads; what is loaded from "
            "the saved file is compared with the plan that was saved, to the printed precision; distinct = "
            "operations, fired faults, schedule digest")
    weights = {"save": 1}
    kinds = [{"out": 2, "plan": 2, "wbpfile": 1, "survey": 1}]
    nops = (2, 5)
    p_io = 0.35
    p_threads = 0.15
    quick_runs = 400
    thorough_runs = 15000
    probes = ("round_trip", "EIO")

    def pick_op(self, rng, w):
        from sim import fileworld
        return fileworld.gen_op(rng, w, ["roundtrip", "roundtrip", "roundtrip_both", "rewrite", "save_plan",
                                         "load_saved", "save_loaded", "save_child"])


CHECK = P14()
