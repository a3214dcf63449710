"""Build and run the C++ harness against /repo's working tree."""
import os
import shutil
import subprocess
import tempfile
import concurrent.futures as cf
import glob

from . import scn

REPO = os.environ.get("VERIF_REPO", "/repo")
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def build(work, asan=False):
    """compile the sources of /repo with the harness into work/; returns the binary"""
    d = os.path.join(work, "hb_asan" if asan else "hb")
    os.makedirs(d, exist_ok=True)
    flags = ["-std=c++11", "-O1", "-fopenmp", "-D_GLIBCXX_ASSERTIONS", "-w", '-DVERSION="verif"',
             "-I" + os.path.join(REPO, "include")]
    if asan:
        flags += ["-g", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined"]
    srcs = [f for f in sorted(glob.glob(os.path.join(REPO, "src", "*.cpp"))) if not f.endswith("/main.cpp")]
    srcs.append(os.path.join(HERE, "harness", "harness.cpp"))

    def one(f):
        o = os.path.join(d, os.path.basename(f)[:-4] + ".o")
        subprocess.run(["g++"] + flags + ["-c", f, "-o", o], check=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        return o

    with cf.ThreadPoolExecutor(8) as ex:
        objs = list(ex.map(one, srcs))
    exe = os.path.join(d, "harness")
    subprocess.run(["g++", "-fopenmp"] + (["-fsanitize=address,undefined"] if asan else []) + objs +
                   ["-lgsl", "-lgslcblas", "-o", exe], check=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    return exe


def program(work):
    """the command-line program"""
    build(work)
    d = os.path.join(work, "hb")
    o, exe = os.path.join(d, "main.o"), os.path.join(d, "arctic")
    subprocess.run(["g++", "-std=c++11", "-O1", "-fopenmp", "-w", '-DVERSION="verif"', "-I" + os.path.join(REPO, "include"), "-c",
                    os.path.join(REPO, "src", "main.cpp"), "-o", o], check=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    objs = [f for f in sorted(glob.glob(os.path.join(d, "*.o"))) if os.path.basename(f) not in ("harness.o", "main.o")]
    subprocess.run(["g++", "-fopenmp"] + objs + [o, "-lgsl", "-lgslcblas", "-o", exe], check=True, stdout=subprocess.PIPE,
                   stderr=subprocess.STDOUT)
    return exe


HUNG = []      # command lines that did not return: once there are some, others are not waited for as long


def command(exe, argv, files, folders=(), full=(), wget=None):
    """run the program in a folder of its own that has the given files; what it printed and left.
    There are `folders` in the way of files, and files on a device that is `full`; wget is what is run as that:
    an exit status, and the file and text that it leaves"""
    d = tempfile.mkdtemp(dir=os.path.dirname(exe))
    try:
        for n, t in files.items():
            with open(os.path.join(d, n), "w") as f:
                f.write(t)
        for n in folders:
            os.mkdir(os.path.join(d, n))
        for n in full:
            os.symlink("/dev/full", os.path.join(d, n))
        # nothing to be fetched from anywhere
        env = dict(LC_ALL="C", PATH="/nonexistent", OMP_NUM_THREADS="1")
        if wget is not None:
            env["PATH"] = b = tempfile.mkdtemp(dir=os.path.dirname(exe))
            status, name, text = wget
            with open(os.path.join(b, "wget"), "w") as f:
                f.write("#!/bin/sh\necho called >> %s/log\n" % b + ("printf '%s' > %s\n" % (text.replace("\n", "\\n"), name) if name else "") + "exit %d\n" % status)
            os.chmod(os.path.join(b, "wget"), 0o755)
        try:
            p = subprocess.run([exe] + argv, cwd=d, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                               timeout=120 if not HUNG else 5)
        except subprocess.TimeoutExpired:
            HUNG.append(argv)
            return dict(code=-14, out="", err="does not return", left={})
        left = {}
        for n in sorted(os.listdir(d)):
            if n in folders or n in full:
                continue
            with open(os.path.join(d, n), errors="replace") as f:
                left[n] = f.read()
        return dict(code=p.returncode, out=p.stdout.decode(errors="replace"), err=p.stderr.decode(errors="replace"), left=left,
                    fetched=wget is not None and os.path.exists(os.path.join(b, "log")))
    finally:
        shutil.rmtree(d)


def run(exe, scens, jobs=8, asan=False, stderr=False):
    """run scenarios (dicts) -> list of parsed results, in order"""
    env = dict(os.environ, LC_ALL="C")
    env["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1"
    env["UBSAN_OPTIONS"] = "halt_on_error=1:exitcode=99"
    env["OMP_DYNAMIC"] = "false"
    env["GSL_RNG_SEED"] = "1"
    if stderr:
        env["HARNESS_STDERR"] = "1"
    lines = [f"{i} " + " ".join(scn.tokens(s)) for i, s in enumerate(scens)]
    if not lines:
        return []
    chunks = [lines[j::jobs] for j in range(jobs)]
    chunks = [c for c in chunks if c]

    def go(c):
        p = subprocess.run([exe], input="\n".join(c) + "\n", text=True, stdout=subprocess.PIPE,
                           stderr=None if stderr else subprocess.DEVNULL, env=env)
        return p.stdout.splitlines()

    res = [None] * len(scens)
    with cf.ThreadPoolExecutor(jobs) as ex:
        for ls in ex.map(go, chunks):
            for l in ls:
                f = l.split()
                i = int(f[0])
                res[i] = scn.parse(scens[i], f[1], f[2:])
    for i, r in enumerate(res):
        if r is None:
            raise RuntimeError("harness gave no result for scenario %d" % i)
        if r["outcome"] == "badscenario":
            raise RuntimeError("bad scenario: " + lines[i][:2000])
    return res
