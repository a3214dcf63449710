#!/usr/bin/env python3
"""check.py PROPERTY [--thorough]: decide a property for the working tree of /repo"""
import json
import os
import subprocess
import sys
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
sys.path.insert(0, HERE)
from lib import checks, core, pychecks, tlc  # noqa: E402

LEVEL = "model_checking"


def main():
    pid = sys.argv[1]
    thorough = "--thorough" in sys.argv[2:]
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    c = core.Ctx(pid, thorough, seed)
    try:
        f = getattr(checks, pid, None) or getattr(pychecks, pid)
        f(c)
    except core.Enough:
        pass
    except subprocess.CalledProcessError as e:
        print("cannot build: %s" % (e.stdout or b"")[-3000:], file=sys.stderr)
        return 2
    except Exception:
        traceback.print_exc()
        if not c.violations:
            return 2
    finally:
        c.close()
    ev = c.evidence(LEVEL, core.ASSUMPTIONS)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1)
    for k in c.known:
        print("KNOWN-FINDING: property=%s %s" % (pid, k))
    for what, path in c.violations:
        print("VIOLATION property=%s replay=%s" % (pid, path))
        print("  " + what[:600])
    if not c.violations:
        print("%s holds: %s" % (pid, json.dumps(ev["coverage"], default=str)[:600]))
    return 1 if c.violations else 0


if __name__ == "__main__":
    sys.exit(main())
