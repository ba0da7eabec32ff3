"""Batch driver: seeded runs over worker processes, minimisation, replay,
known findings, evidence."""
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import random
import subprocess
import sys
import time
import traceback

from . import bootstrap, forkrun

VERIF = bootstrap.VERIF
KNOWN = os.path.join(VERIF, "known_findings.json")


def seed_for(base, prop, i):
    h = hashlib.sha256(f"{base}|{prop}|{i}".encode()).digest()
    return int.from_bytes(h[:8], "big")


class Check:
    """Base class of a check.  Subclasses give gen / run / shrink."""
    id = None
    level = "exploration"
    rule = ""
    quick_runs = 400
    thorough_runs = 8000
    quick_cap_s = 420
    thorough_cap_s = 3300
    real = ""
    stub = ""
    assumptions = []
    probes = ()            # reach probes that must fire in a whole batch

    def gen(self, rng, i):
        raise NotImplementedError

    def run(self, sc):
        """-> dict(violations=[{key,detail}], faults={kind:n}, sig=str,
        nontrivial=bool, sim_s=float, steps=int, probes={name:n}, digest=str)"""
        raise NotImplementedError

    # generic shrinking: drop elements of the listed lists, then `simplify`
    lists = ("ops", "faults", "schedule")

    def finalize(self, sc, res):
        """Make a failing scenario explicit (e.g. pin the recorded schedule)."""
        return sc

    def simplify(self, sc):
        return ()

    def candidates(self, sc):
        for name in self.lists:
            v = sc.get(name)
            if isinstance(v, list) and v:
                n = len(v)
                size = n // 2
                while size >= 1:
                    for s in range(0, n, size):
                        c = dict(sc)
                        c[name] = v[:s] + v[s + size:]
                        if self.valid(c):
                            yield c
                    size //= 2
        yield from self.simplify(sc)

    def valid(self, sc):
        return True

    def start(self):
        """Before the workers are forked."""

    def stop(self):
        """At the end of the process."""


def get_check(pid):
    sys.path.insert(0, VERIF)
    return importlib.import_module(f"checks.{pid}").CHECK


def known_keys(pid):
    try:
        with open(KNOWN) as f:
            k = json.load(f)
    except FileNotFoundError:
        return []
    return [e for e in k.get("findings", []) if e["property"] == pid]


def matches(known, v):
    return any(v["key"] == e["key"] for e in known)


def safe_run(check, sc):
    """run() with one retry for child timeouts (machine overload)."""
    try:
        return check.run(sc)
    except forkrun.ChildTimeout:
        return check.run(sc)


def _worker(pid, base, idxs, q, stop, known):
    check = get_check(pid)
    for i in idxs:
        if stop.value:
            break
        seed = seed_for(base, pid, i)
        try:
            rng = random.Random(seed)
            sc = check.gen(rng, i)
            sc = json.loads(json.dumps(sc))
            res = safe_run(check, sc)
        except BaseException:                            # noqa
            q.put(("error", i, seed, traceback.format_exc()))
            continue
        new = [v for v in res["violations"] if not matches(known, v)]
        old = [v for v in res["violations"] if matches(known, v)]
        q.put(("run", i, seed, {
            "faults": res.get("faults", {}), "sig": res.get("sig", ""),
            "nontrivial": bool(res.get("nontrivial", True)),
            "sim_s": res.get("sim_s", 0.0), "steps": res.get("steps", 0),
            "probes": res.get("probes", {}), "digest": res.get("digest", ""),
            "execs": res.get("execs", 1), "preempt": res.get("preempt", 0),
            "new": new, "old": old, "sc": sc if (new or i < 3) else None,
            "res": {k: res.get(k) for k in ("decisions",)} if new else None,
        }))
    q.put(("end", None, None, None))


def batch(check, base, tier, nproc=None, runs=None):
    nproc = nproc or min(8, os.cpu_count() or 1)
    runs = runs or (check.quick_runs if tier == "quick" else check.thorough_runs)
    cap = check.quick_cap_s if tier == "quick" else check.thorough_cap_s
    known = known_keys(check.id)
    ctx = mp.get_context("fork")
    q = ctx.Queue()
    stop = ctx.Value("b", 0)
    t0 = time.monotonic()
    procs = []
    for w in range(nproc):
        p = ctx.Process(target=_worker, args=(
            check.id, base, range(w, runs, nproc), q, stop, known))
        p.start()
        procs.append(p)
    live, out, errors = nproc, {}, []
    capped = False
    viol_at = None
    while live:
        try:
            m = q.get(timeout=5)
        except Exception:                                # queue.Empty
            m = None
            if not any(p.is_alive() for p in procs):
                break
        if time.monotonic() - t0 > cap and not capped:
            capped = True
            stop.value = 1
        if time.monotonic() - t0 > cap + 200:
            for p in procs:
                p.kill()
            errors.append(("hang", 0, "workers did not stop"))
            break
        if m is None:
            continue
        kind, i, seed, val = m
        if kind == "end":
            live -= 1
        elif kind == "error":
            errors.append((i, seed, val))
            if len(errors) > 5:
                stop.value = 1
        else:
            out[i] = dict(val, seed=seed)
            if val["new"] and viol_at is None:
                viol_at = time.monotonic()
                stop.value = 1
    for p in procs:
        p.join(5)
        if p.is_alive():
            p.kill()
    return out, errors, capped, time.monotonic() - t0, runs, nproc


def reproduces(check, sc, key):
    try:
        res = safe_run(check, sc)
    except BaseException:                                # noqa
        return None
    hit = [v for v in res["violations"] if v["key"] == key]
    return (res, hit[0]) if hit else None


def minimise(check, sc, res, key, budget_s=90):
    t0 = time.monotonic()
    full = reproduces(check, sc, key)
    if full is None:
        return sc, None, 0
    best, (bres, bv) = sc, full
    f = check.finalize(json.loads(json.dumps(sc)), bres)
    r = reproduces(check, f, key)
    if r:
        best, (bres, bv) = f, r
    tries = 0
    improved = True
    while improved and time.monotonic() - t0 < budget_s:
        improved = False
        for c in check.candidates(best):
            if time.monotonic() - t0 > budget_s:
                break
            c = json.loads(json.dumps(c))
            if c == best:
                continue
            tries += 1
            r = reproduces(check, c, key)
            if r:
                best, (bres, bv) = c, r
                improved = True
                break
    return best, bv, tries


def write_replay(check, sc, v, base, seed, i, extra):
    d = os.path.join(VERIF, "evidence", "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f"{check.id}-{seed:016x}.json")
    with open(path, "w") as f:
        json.dump({"property": check.id, "verif_seed": base, "run": i,
                   "run_seed": seed, "key": v["key"], "detail": v["detail"],
                   "scenario": sc, **extra}, f, indent=1)
    return path


def main_check(pid):
    tier = os.environ.get("VERIF_TIER", "quick")
    tier = tier if tier in ("quick", "thorough") else "quick"
    try:
        base = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        base = 1
    print(f"seed={base} tier={tier} property={pid}", flush=True)
    bootstrap.load()
    check = get_check(pid)
    check.start()
    try:
        return _main_check(check, base, tier)
    finally:
        check.stop()


def _main_check(check, base, tier):
    pid = check.id
    out, errors, capped, wall, runs, nproc = batch(check, base, tier)
    viol = sorted(i for i, r in out.items() if r["new"])
    rc = 0
    findings = {}
    for r in out.values():
        for v in r["old"]:
            findings.setdefault(v["key"], []).append(v["detail"])
    nviol = 0
    if viol:
        i = viol[0]
        r = out[i]
        v = r["new"][0]
        sc, mv, tries = minimise(check, r["sc"], r["res"], v["key"])
        mv = mv or v
        path = write_replay(check, sc, mv, base, r["seed"], i, {"shrink_tries": tries})
        # replay in a fresh process
        p = subprocess.run([bootstrap.PY, "-W", "ignore",
                            os.path.join(VERIF, "run.py"), "replay", path],
                           capture_output=True, text=True, timeout=400)
        print(f"run={i} run_seed={r['seed']} key={mv['key']}")
        print(f"detail: {mv['detail']}")
        print(f"replay in fresh process: {'reproduced' if p.returncode == 1 else 'rc=%d' % p.returncode}")
        print(f"VIOLATION property={pid} replay={path}", flush=True)
        nviol = len(viol)
        rc = 1
    for e in known_keys(pid):
        print(f"KNOWN-FINDING: property={pid} {e['what']}"
              f" (seen in {len(findings.get(e['key'], []))} runs of this batch)")
    if errors:
        for e in errors[:3]:
            print(f"HARNESS ERROR run={e[0]} seed={e[1]}\n{e[2]}", file=sys.stderr)
        if rc == 0:
            rc = 2
    done = len(out)
    if rc == 0 and done < max(1, runs // 10):
        print(f"HARNESS ERROR: only {done} of {runs} runs finished", file=sys.stderr)
        rc = 2
    faults, probes = {}, {}
    for r in out.values():
        for k, n in r["faults"].items():
            faults[k] = faults.get(k, 0) + n
        for k, n in r["probes"].items():
            probes[k] = probes.get(k, 0) + n
    missing = [p for p in check.probes if not probes.get(p) and not faults.get(p)]
    if rc == 0 and missing and not capped:
        print(f"HARNESS ERROR: reach probes stuck at zero: {missing}", file=sys.stderr)
        rc = 2
    sigs = {r["sig"] for r in out.values() if r["nontrivial"]}
    samples = [{"run": i, "seed": out[i]["seed"], "scenario": out[i]["sc"]}
               for i in sorted(out) if out[i]["sc"] is not None][:2]
    txt = json.dumps(samples)
    if len(txt) > 20000:
        samples = [txt[:20000]]
    digest = hashlib.sha256("".join(
        out[i]["digest"] for i in sorted(out)).encode()).hexdigest()
    ev = {
        "property": pid, "tier": tier, "seed": base, "level": check.level,
        "coverage": {
            "evaluations": done,
            "distinct_nontrivial": len(sigs),
            "rule": check.rule,
            "samples": samples,
            "simulated_executions": sum(r["execs"] for r in out.values()),
            "runs_per_hour": round(done / max(wall, 1e-9) * 3600),
            "simulated_time_s": round(sum(r["sim_s"] for r in out.values()), 1),
            "scheduling_points": sum(r["steps"] for r in out.values()),
            "preemptions": sum(r["preempt"] for r in out.values()),
            "faults_fired": faults, "reach_probes": probes,
            "event_log_digest": digest,
            "runs_planned": runs, "time_capped": capped, "workers": nproc,
            "real_code": check.real, "stubs": check.stub,
            "known_findings_seen": {k: len(v) for k, v in findings.items()},
            "harness_errors": len(errors),
        },
        "assumptions": list(check.assumptions),
        "wall_s": round(wall, 2), "violations": nviol,
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    tmp = os.path.join(VERIF, "evidence", f".{pid}.tmp")
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(VERIF, "evidence", f"{pid}.json"))
    print(f"runs={done} distinct={len(sigs)} execs={ev['coverage']['simulated_executions']}"
          f" wall={wall:.1f}s errors={len(errors)} digest={digest[:16]} faults={faults} probes={probes}")
    return rc


def main_replay(path):
    with open(path) as f:
        r = json.load(f)
    bootstrap.load()
    check = get_check(r["property"])
    check.start()
    try:
        res = safe_run(check, r["scenario"])
    finally:
        check.stop()
    hit = [v for v in res["violations"] if v["key"] == r["key"]]
    print(f"property={r['property']} key={r['key']}")
    if hit:
        print(f"detail: {hit[0]['detail']}")
        print(f"VIOLATION property={r['property']} replay={path}")
        return 1
    for v in res["violations"]:
        print("other violation:", v)
    print("not reproduced")
    return 0


def _scan1(a):
    pid, base, i = a
    c = get_check(pid)
    try:
        sc = json.loads(json.dumps(c.gen(random.Random(seed_for(base, pid, i)), i)))
        r = safe_run(c, sc)
        return i, [(v["key"], v["detail"]) for v in r["violations"]], r.get("probes", {}), r.get("faults", {})
    except BaseException:                                # noqa
        return i, [("HARNESS", traceback.format_exc()[-900:])], {}, {}


def main_scan(pid, n):
    bootstrap.load()
    base = int(os.environ.get("VERIF_SEED", "1"))
    cnt, ex, tot = {}, {}, {}
    get_check(pid).start()
    with mp.get_context("fork").Pool(8) as p:
        for i, vs, pr, fa in p.imap_unordered(_scan1, [(pid, base, i) for i in range(n)]):
            for k, v in list(pr.items()) + list(fa.items()):
                tot[k] = tot.get(k, 0) + v
            for k, d in vs:
                cnt[k] = cnt.get(k, 0) + 1
                ex.setdefault(k, (i, d))
    for k in sorted(cnt, key=cnt.get, reverse=True):
        print(cnt[k], k, ex[k][0], ex[k][1][:900])
    print("scanned", n, tot)
    get_check(pid).stop()
    return 0
