#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]: decide one property on /repo's working tree.

Builds the explorer of the property against /repo/matrix in a scratch directory, runs
its worker processes, writes evidence/<id>.json, and exits 0 (held on everything explored)
or 1 with a line "VIOLATION property=<id> replay=<path>". Exit 2: the check itself failed.
"""
import concurrent.futures as cf
import glob
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VMC_REPO", "/repo")
INC = os.path.join(REPO, "matrix")
sys.path.insert(0, os.path.join(HERE, "tools"))
from checks import CHECKS  # noqa: E402
from util import Build, Ctx, CheckError, Violation  # noqa: E402


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    spec = CHECKS[prop]
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    os.makedirs(os.path.join(HERE, ".build"), exist_ok=True)
    scratch = tempfile.mkdtemp(prefix=prop + "-", dir=os.path.join(HERE, ".build"))
    t0 = time.time()
    ctx = Ctx(prop, tier, scratch, HERE, REPO, INC)
    rc = 2
    try:
        violation = None
        try:
            spec["run"](ctx, spec)
        except Violation as v:
            violation = v
        cov = ctx.coverage(spec)
        ev = {"property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")),
              "level": spec["level"], "coverage": cov, "assumptions": spec.get("assumptions", []),
              "wall_s": round(time.time() - t0, 2), "violations": 1 if violation else 0}
        with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")
        for note in ctx.notes:
            print("note:", note)
        for k in ctx.known:
            print("KNOWN-FINDING: property=%s %s" % (prop, k))
        if violation:
            path = ctx.write_replay(violation)
            print(violation.text)
            print("VIOLATION property=%s replay=%s" % (prop, path))
            rc = 1
        else:
            print("%s %s: held. %s (%.1f s)" % (prop, tier, ctx.summary(cov), time.time() - t0))
            rc = 0
    except CheckError as e:
        print("check error: %s" % e, file=sys.stderr)
        rc = 2
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.stdout.flush()
    sys.exit(rc)


if __name__ == "__main__":
    main()
