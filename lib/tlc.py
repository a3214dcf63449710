"""Compile the arithmetic back-ends and run TLC on the specifications."""
import glob
import json
import os
import re
import shutil
import subprocess
import threading
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(HERE, "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
_lock = threading.Lock()
_built = {}


class TlcError(RuntimeError):
    pass


def backend(work, which):
    """class directory of the arithmetic back-end ('dbl' or 'rat')"""
    with _lock:
        d = os.path.join(work, "cls_" + which)
        if _built.get(d):
            return d
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        p = subprocess.run(["javac", "-nowarn", "-cp", JARS, "-d", d] +
                           sorted(glob.glob(os.path.join(SPEC, "java", which, "*.java"))),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode:
            raise TlcError("javac: " + p.stdout)
        _built[d] = True
        return d


class Result:
    def __init__(self):
        self.out = ""
        self.rc = None
        self.states = 0
        self.generated = 0
        self.depth = 0
        self.prints = []      # tuples printed with PrintT(<<"V", ...>>)
        self.violated = None  # name of a violated invariant/property
        self.trace = ""
        self.actions = {}
        self.wall = 0.0


def run(work, module, which="dbl", cfg=None, env=None, workers=8, heap="6g", timeout=700, args=(), tag=None,
        files=None, coverage=False, ok_violation=False):
    """run TLC on spec/<module>.tla in its own directory; raises TlcError on anything but
    success or a violated invariant/property"""
    cls = backend(work, which)
    d = os.path.join(work, "tlc_" + (tag or module))
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    for f in glob.glob(os.path.join(SPEC, "*.tla")) + glob.glob(os.path.join(SPEC, "*.cfg")):
        shutil.copy(f, d)
    for name, text in (files or {}).items():
        with open(os.path.join(d, name), "w") as fh:
            fh.write(text)
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-Djava.io.tmpdir=" + d, "-cp", cls + ":" + JARS, "tlc2.TLC",
           "-workers", str(workers), "-noTE", "-metadir", os.path.join(d, "meta"),
           "-config", cfg or (module + ".cfg")]
    if coverage:
        cmd += ["-coverage", "1"]
    cmd += list(args) + [module + ".tla"]
    t0 = time.time()
    e = dict(os.environ)
    e.pop("JAVA_TOOL_OPTIONS", None)
    e.update(env or {})
    p = subprocess.run(cmd, cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    r = Result()
    r.wall = time.time() - t0
    r.out = "".join(l for l in p.stdout.splitlines(True)
                    if not re.match(r"(Parsing file|Semantic processing|Linting of|Loading .* override|Computed \d+ initial)", l))
    r.rc = p.returncode
    m = re.search(r"(\d+) states generated, (\d+) distinct states found", p.stdout)
    if m:
        r.generated, r.states = int(m.group(1)), int(m.group(2))
    m = re.search(r"depth of the complete state graph search is (\d+)", p.stdout)
    if m:
        r.depth = int(m.group(1))
    # printed tuples may be broken over lines
    for m in re.finditer(r'<<\s*"V",(.*?)>>\n', p.stdout, re.S):
        r.prints.append([x.strip().strip('"') for x in split_top(" ".join(m.group(1).split()))])
    for m in re.finditer(r"^<(\w+) line [^>]*>: (\d+):(\d+)", p.stdout, re.M):
        r.actions[m.group(1)] = (int(m.group(2)), int(m.group(3)))
    m = re.search(r"Error: (?:Invariant|Property|Action property|Temporal properties?) ?(\w*) ?(?:is|was|were) violated", p.stdout)
    if m:
        r.violated = m.group(1) or "temporal"
        r.trace = p.stdout[m.start():][:20000]
    elif re.search(r"Error: The postcondition", p.stdout) or re.search(r"Assumption .* is false", p.stdout):
        r.violated = "assumption"
        r.trace = p.stdout[-6000:]
    if r.violated is None and p.returncode != 0:
        raise TlcError("TLC on %s failed (%d):\n%s" % (module, p.returncode, r.out[-6000:]))
    shutil.rmtree(os.path.join(d, "meta"), ignore_errors=True)
    return r


def split_top(s):
    """split at commas that are outside brackets and quotes"""
    out, cur, dep, q = [], "", 0, False
    for ch in s:
        if ch == '"':
            q = not q
        if not q:
            if ch in "([{<":
                dep += 1
            elif ch in ")]}>":
                dep -= 1
            elif ch == "," and dep == 0:
                out.append(cur)
                cur = ""
                continue
        cur += ch
    out.append(cur)
    return out


def write_ndjson(path, records):
    with open(path, "w") as f:
        for r in records:
            f.write(json.dumps(r, separators=(",", ":")) + "\n")
