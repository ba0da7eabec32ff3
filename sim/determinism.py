"""Is one seed one execution?  Runs scenarios of the given checks in two separate
interpreters (other process ids, addresses, load) and compares the
digest of everything recorded: schedule, fired faults, outcomes."""
import json
import os
import random
import subprocess
import sys

from . import bootstrap, driver

IDS = [f"P{i:02d}" for i in range(1, 25)]


def one(pid, runs):
    bootstrap.load()
    c = driver.get_check(pid)
    c.start()
    base = int(os.environ.get("VERIF_SEED", "1"))
    out = []
    for i in range(runs):
        sc = json.loads(json.dumps(c.gen(random.Random(driver.seed_for(base, pid, i)), i)))
        r = driver.safe_run(c, sc)
        out.append([i, r.get("digest"), r.get("sig"), r.get("faults"),
                    [v["key"] for v in r["violations"]]])
    c.stop()
    print("DIGESTS " + json.dumps(out), flush=True)
    return 0


def main(argv):
    runs = int(os.environ.get("RUNS", "12"))
    if argv and argv[0] == "--one":
        return one(argv[1], int(argv[2]))
    bad = 0
    for pid in argv or IDS:
        got = []
        procs = [subprocess.Popen([sys.executable, os.path.join(bootstrap.VERIF, "run.py"),
                                   "determinism", "--one", pid, str(runs)],
                                  stdout=subprocess.PIPE, text=True) for _ in range(2)]
        for p in procs:
            text = p.communicate()[0]
            line = [x for x in text.splitlines() if x.startswith("DIGESTS ")]
            got.append(json.loads(line[0][8:]) if line else None)
        if got[0] is None or got[0] != got[1]:
            bad += 1
            for a, b in zip(got[0] or [], got[1] or []):
                if a != b:
                    print(pid, "run", a[0], "differs:", [(x, y) for x, y in zip(a, b) if x != y])
        print(pid, "same" if got[0] == got[1] and got[0] else "DIFFERENT", len(got[0] or []), "runs", flush=True)
    return 1 if bad else 0
