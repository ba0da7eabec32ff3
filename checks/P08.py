"""P08: error model definitions under storage faults."""
from sim.compare import diff
from sim.histcheck import HistCheck


class P08(HistCheck):
    id = "P08"
    mod = "modelworld"
    rule = ("one run = 1-5 error-model evaluations (registered models through get_error, while building "
            "a survey, on a survey from outside; OWSG set B definitions; the model index; the definition "
            "conformance report) whose definition files are read through the storage seam: read errors, "
            "short reads, refused opens, exhausted file handles, failing and reordered directory listings, "
            "interrupts, each followed by a retry; every answer is compared with "
            "the evaluation alone on a healthy disk; distinct = operations, fired faults")
    weights = {"models": 6, "json": 3, "index": 1}
    nops = (1, 5)
    p_io = 0.75
    p_inject = 0.05
    p_threads = 0.08
    io_kinds = {"open": ("EACCES", "EIO", "EMFILE"), "read": ("EIO", "EIO", "short", "short"),
                "list": ("EIO", "EMFILE", "shuffle", "shuffle", "shuffle")}
    io_weights = {"open": 3, "read": 5, "list": 4}
    quick_runs = 600
    thorough_runs = 20000
    probes = ("EIO", "short", "shuffle", "EMFILE")
    stub = "disk (scripted faults below the real buffered and text layers), wall clock, magnetic-field service"
    assumptions = ["faults strike at raw open, read and listing calls; the definition files exist and hold "
                   "what the library shipped"]

    def extra(self, sc, refs, r, bad, probes):
        """Nothing lost: the total is the sum of its parts, and every definition evaluates."""
        for i, d in enumerate(sc["ops"]):
            out = refs[i].get("out")
            if out is None or d["op"] not in ("evaluate_model", "evaluate_model_separately", "tool_model"):
                continue
            if out[0] == "ok":
                probes["parts_summed"] = probes.get("parts_summed", 0) + 1
                for k, what in ((1, "propagation classes"), (2, "sources")):
                    e = diff(out[1][k], out[1][0], "total", atol=1e-7)
                    if e:
                        bad(f"parts:{d['op']}", f"op {i} {d['op']} {d['model']}: the {what} do not add up: {e}")
            elif "not suitable" not in out[2]:
                bad(f"unusable:{d['model']}", f"op {i} {d['op']} {d['model']}: raised {out[1:]} on a healthy disk")


CHECK = P08()
