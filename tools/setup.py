#!/usr/bin/env python3
"""Checks that what the checks need is there: the Java back-ends compile and every module parses."""
import glob
import os
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.path.insert(0, HERE)
from lib import tlc  # noqa: E402

with tempfile.TemporaryDirectory() as d:
    for w in ("dbl", "rat"):
        tlc.backend(d, w)
    os.chdir(os.path.join(HERE, "spec"))
    for f in sorted(glob.glob("*.tla")):
        p = subprocess.run(["java", "-Djava.io.tmpdir=" + d, "-cp", tlc.JARS, "tla2sany.SANY", f], stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True)
        if "Semantic errors" in p.stdout or "Parse Error" in p.stdout or p.returncode:
            print(p.stdout)
            sys.exit(1)
print("ok")
