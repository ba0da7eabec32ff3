#!/usr/bin/env python3
"""Work with planted bugs (scratch trees under /tmp/bt, removed afterwards).

  plant.py mk ID             scratch copy of /repo's HEAD in /tmp/bt/ID
  plant.py save ID           write seeded/ID/patch.diff from the scratch copy
  plant.py try ID [--notest] [CHECK...]  apply, run tests, demo and checks in a scratch copy
"""
import json
import os
import shutil
import subprocess
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
BT = "/tmp/bt"


def sh(cmd, cwd=None, env=None, **k):
    return subprocess.run(cmd, shell=True, cwd=cwd, env=dict(os.environ, **(env or {})),
                          capture_output=True, text=True, **k)


def mk(i):
    d = f"{BT}/{i}"
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    sh(f"git -C /repo archive HEAD | tar x -C {d}")
    sh("git init -q && git add -A && git -c user.name=x -c user.email=x@x commit -qm b", cwd=d)
    return d


def save(i):
    d = f"{BT}/{i}"
    o = f"{V}/seeded/{i}"
    os.makedirs(o, exist_ok=True)
    out = subprocess.run("git diff", shell=True, cwd=d, capture_output=True).stdout
    with open(f"{o}/patch.diff", "wb") as f:
        f.write(out)
    print(out.decode())


def attempt(i, args):
    o = f"{V}/seeded/{i}"
    meta = json.load(open(f"{o}/meta.json"))
    d = mk(f"try_{i}")
    r = sh(f"git apply {o}/patch.diff", cwd=d)
    if r.returncode:
        print(i, "DOES NOT APPLY", r.stderr)
        return
    if "--notest" not in args:
        r = sh(f"{PY} -m pytest -q -p no:cacheprovider -n 4 --timeout=300 tests 2>&1 | tail -8", cwd=d,
               env={"PYTHONPATH": d, "PYTHONDONTWRITEBYTECODE": "1", "HOME": "/root",
                    "OPENBLAS_NUM_THREADS": "1"})
        print(i, "tests:", r.stdout.strip().splitlines()[-1])
        for ln in r.stdout.splitlines():
            if ln.startswith(("FAILED", "ERROR")) and "test_known_location" not in ln:
                print("   ", ln[:150])
    if "--nodemo" not in args:
        a = sh(f"bash {o}/demo.sh", cwd="/repo", timeout=300)
        b = sh(f"bash {o}/demo.sh", cwd=d, timeout=300)
        print(i, "demo: unchanged", a.returncode, "patched", b.returncode, "|",
              (b.stdout + b.stderr).strip().splitlines()[-1:][:1])
        if a.returncode:
            print(a.stdout[-500:], a.stderr[-800:])
    checks = [x for x in args if not x.startswith("--")] or [meta["property"]]
    for c in checks:
        r = sh(f"./run.py check {c}", cwd=V, env={"WELLENG_REPO": d, "VERIF_SEED": "1"})
        vio = [x for x in r.stdout.splitlines() if x.startswith(("VIOLATION", "detail", "run=", "replay in"))]
        print(i, c, "rc", r.returncode, "CAUGHT" if r.returncode == 1 and vio else "MISSED", flush=True)
        for x in vio:
            print("    ", x[:230])
        if r.returncode == 2:
            print(r.stdout[-500:], r.stderr[-1500:])
    shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    c, i = sys.argv[1:3]
    if c == "mk":
        print(mk(i))
    elif c == "save":
        save(i)
    else:
        attempt(i, sys.argv[3:])
