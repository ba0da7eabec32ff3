#!/opt/venv/bin/python
"""run.py setup | check <ID> | replay <file> | one <ID> <i> | determinism [ID...]"""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from sim import bootstrap                                  # noqa: E402

bootstrap.ensure_env()
sys.dont_write_bytecode = True

from sim import driver                                     # noqa: E402


def main(argv):
    cmd = argv[0]
    if cmd == "check":
        return driver.main_check(argv[1])
    if cmd == "replay":
        return driver.main_replay(argv[1])
    if cmd == "one":
        import json
        import random
        bootstrap.load()
        c = driver.get_check(argv[1])
        c.start()
        base = int(os.environ.get("VERIF_SEED", "1"))
        for i in map(int, argv[2:]):
            sc = json.loads(json.dumps(c.gen(random.Random(driver.seed_for(base, c.id, i)), i)))
            print(json.dumps(sc)[:3000])
            res = c.run(sc)
            print({k: v for k, v in res.items() if k != "decisions"})
        c.stop()
        return 0
    if cmd == "zygote":
        from sim import zygote
        return zygote.serve(argv[1])
    if cmd == "setup":
        bootstrap.load()
        print("library imports from", bootstrap.REPO)
        return 0
    if cmd == "scan":                       # scan ID N: all violations by key
        return driver.main_scan(argv[1], int(argv[2]))
    if cmd == "determinism":
        from sim import determinism
        return determinism.main(argv[1:])
    return 2


if __name__ == "__main__":
    try:
        rc = main(sys.argv[1:])
    except SystemExit:
        raise
    except BaseException:                                  # noqa
        import traceback
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)
