"""Checks over files: histories and storage faults against pristine references
and against the model each input file was written from."""
from . import fileworld
from .compare import diff
from .histcheck import HistCheck


class FileCheck(HistCheck):
    mod = "fileworld"
    kinds = [{}]
    p_io = 0.35
    p_inject = 0.08
    p_scribble = 0.12
    p_replace = 0.2               # another program replaces an input file between operations
    exc_kinds = ("KeyboardInterrupt", "MemoryError")
    stub = ("disk errors, torn, short and lost writes (scripted below the real buffered I/O layers), "
            "process crash (a forked process that ends without flushing), wall clock")
    assumptions = ["faults strike at raw read/write/open/close/list calls; kernel caching and power loss "
                   "are not modelled (a process crash keeps what was written)"]

    def gen_world(self, rng):
        return fileworld.gen_world(rng, rng.choice(self.kinds))

    def pick_op(self, rng, w):
        have = {x["t"] for x in w["objs"]}
        pool = [n for n, o in fileworld.OPS.items() if all(t in have for t in o.types)
                for _ in range(self.weights.get(o.group, 0))]
        return fileworld.gen_op(rng, w, pool)

    def gen(self, rng, i):
        sc = super().gen(rng, i)
        rep = [n for n in fileworld.names("replace")
               if fileworld.OPS[n].types[0] in {x["t"] for x in sc["world"]["objs"]}]
        if rep and not sc["threads"]:
            k = 0
            while k <= len(sc["ops"]):
                if rng.random() < self.p_replace / 2:
                    sc["ops"].insert(k, dict(fileworld.gen_op(rng, sc["world"], rep), t=0))
                    for x in sc["inject"] + sc["io"]:
                        x["i"] += x["i"] >= k
                    sc["scribble"] = [x + (x >= k) for x in sc["scribble"]]
                    k += 1
                k += 1
        if sc["threads"]:                              # one writer per file
            own = {}
            for d in sc["ops"]:
                for j in fileworld.outputs(d):
                    own.setdefault(j, d["t"])
            for d in sc["ops"]:
                ts = {own[j] for j in d["objs"] if j in own}
                if len(ts) == 1:
                    d["t"] = ts.pop()
        return sc

    def extra(self, sc, refs, r, bad, probes):
        for i, d in enumerate(sc["ops"]):
            if d["op"] in ("roundtrip", "roundtrip_both", "rewrite") and refs[i].get("out", " ")[0] == "ok":
                probes["round_trip"] = probes.get("round_trip", 0) + 1
                x, y = refs[i]["out"][1]
                e = printed(y, x if isinstance(x, list) else [x], d["op"])
                if e:
                    bad(f"loads-back:{d['op']}", f"op {i} {d['op']}: the file loads as a different plan: {e}")
                continue
            w = sc["world"]
            if fileworld.OPS[d["op"]].group != "edm":         # open databases keep what they have read
                w = fileworld.current(w, sc["ops"][:i])
            want = fileworld.expected(w, d)
            got = refs[i].get("out")
            if want is None or got is None:
                continue
            probes["model_compared"] = probes.get("model_compared", 0) + 1
            if want == "raise":
                probes["torn_input"] = probes.get("torn_input", 0) + 1
                if got[0] == "ok":
                    bad(f"accepted:{d['op']}", f"op {i} {d['op']}: a file cut short was accepted")
                continue
            if got[0] != "ok":
                bad(f"refused:{d['op']}", f"op {i} {d['op']}: raised {got[1:]} on a sound file")
                continue
            e = diff(shaped(got[1], want, d["op"]), want, d["op"])
            if e:
                bad(f"model:{d['op']}", f"op {i} {d['op']}: not what the file says: {e}")


TOL = {"md": 2, "location": 2, "toolface": 2, "extension": 5, "cov_xx": 1, "cov_xy": 1, "cov_xz": 1, "cov_yy": 1,
       "cov_yz": 1, "cov_zz": 1, "x_bias": 2, "y_bias": 2, "z_bias": 2, "inc": 3, "azi": 3, "build_rate": 3,
       "turn_rate": 3}


def printed(a, b, path, digits=2):
    """First difference beyond the decimals a plan file states."""
    if isinstance(a, dict) and isinstance(b, dict):
        for k in sorted(set(a) | set(b)):
            if k not in a or k not in b:
                return f"{path}.{k}: only on one side"
            e = printed(a[k], b[k], f"{path}.{k}", TOL.get(k, 3 if k == "dls" and "step" in path else 2))
            if e:
                return e
        return None
    if isinstance(a, list) and isinstance(b, list) and len(a) == len(b):
        return next((e for e in (printed(x, y, f"{path}[{i}]", digits)
                                 for i, (x, y) in enumerate(zip(a, b))) if e), None)
    return diff(a, b, path, rtol=1e-12, atol=0.501 * 10 ** -digits)


LOOSE = ("load_wbp", "load_twice", "edm_open", "convert_tools")


def fix(got, want):
    """Ignore the parts of the answer the model leaves open."""
    if isinstance(want, list) and "<any>" in want and isinstance(got, list) and len(got) == len(want):
        return ["<any>" if b == "<any>" else a for a, b in zip(got, want)]
    return got


def shaped(got, want, op):
    got = fix(got, want)
    return fileworld.pick_like(got, want) if op in LOOSE else got
