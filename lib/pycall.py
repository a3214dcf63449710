"""Calls of the Python package: built from /repo's sources in a scratch copy, made by harness/pydriver.py.

A call is a dictionary; add_cti and remove_cti have
  op = "cti", fn, iters, image, layout (dtype and arrangement of the array), given (arguments, as spec/Wrapper.tla has them)
"""
import concurrent.futures as cf
import json
import os
import shutil
import signal
import subprocess

from . import impl, scn

PY = "/opt/vp/venv/bin/python"


def build(work):
    """a copy of /repo with libarctic.so and the extension module built in it"""
    d = os.path.join(work, "py")
    os.makedirs(d)
    for name in ("src", "include", "python", "test", "makefile", "setup.py", "make_setup.py", "pyproject.toml"):
        a = os.path.join(impl.REPO, name)
        if os.path.isdir(a):
            shutil.copytree(a, os.path.join(d, name), ignore=shutil.ignore_patterns("*.so", "wrapper.cpp", "__pycache__", "*.o"))
        elif os.path.exists(a):
            shutil.copy(a, d)
    env = dict(os.environ, PATH="/opt/vp/venv/bin:" + os.environ["PATH"], CC="g++", PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg")
    for v in ("LDFLAGS", "CFLAGS", "CXXFLAGS", "MAKEFLAGS", "PYTHONPATH"):
        env.pop(v, None)
    subprocess.run(["make", "-j8", "DIR_GSL=/usr", "DIR_OMP=/usr", "CXX=g++ -Wl,--no-as-needed", "wrapper"], cwd=d, env=env, check=True,
                   stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    return d


def run(d, calls, jobs=8):
    """results of the calls, in order; a call that ends its process is an outcome too"""
    if not calls:
        return []
    env = dict(os.environ, PYTHONPATH=os.path.join(d, "python"), LD_LIBRARY_PATH=d, PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg",
               OMP_NUM_THREADS="2", OMP_DYNAMIC="false", GSL_RNG_SEED="1", LC_ALL="C")
    drv = os.path.join(impl.HERE, "harness", "pydriver.py")
    n = len(os.listdir(d))

    def go(j):
        part = calls[j::jobs]
        if not part:
            return []
        a, b = os.path.join(d, "calls_%d_%d.json" % (n, j)), os.path.join(d, "results_%d_%d" % (n, j))
        with open(a, "w") as f:
            json.dump(part, f)
        open(b, "w").close()
        out, hung = [], 0      # calls that did not return: once there are some, others are not waited for as long
        while len(out) < len(part):
            start = len(out)
            p = subprocess.run([PY, drv, a, b, str(start), str(150 if hung < 1 else 15 if hung < 5 else 5)], cwd=d, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)
            with open(b) as f:
                out = [json.loads(l) for l in f]
            if len(out) < len(part):
                hung += p.returncode == -signal.SIGALRM
                if len(out) == start and b"pydriver" in p.stderr and b"Traceback" in p.stderr and p.returncode == 1:
                    # the package cannot even be imported, or the driver is wrong
                    out += [dict(outcome="raise " + p.stderr.decode()[-600:])] * (len(part) - len(out))
                    break
                out.append(dict(outcome="ended with %d: %s" % (p.returncode, p.stderr.decode(errors="replace")[-300:])))
                with open(b, "a") as f:
                    f.write(json.dumps(out[-1]) + "\n")
        os.unlink(a)
        os.unlink(b)
        return out

    with cf.ThreadPoolExecutor(jobs) as ex:
        parts = list(ex.map(go, range(jobs)))
    res = [None] * len(calls)
    for j, p in enumerate(parts):
        for k, x in enumerate(p):
            res[j + k * jobs] = unhex(x)
    return res


def unhex(x):
    if isinstance(x, dict):
        return {k: (v if k in ("outcome", "dtype") else unhex(v)) for k, v in x.items()}
    if isinstance(x, list):
        return [unhex(y) for y in x]
    if isinstance(x, str) and len(x) == 16 and all(ch in "0123456789abcdef" for ch in x):
        return scn.from_hex(x)
    return x


# ---------------------------------------------------------------- from scenarios to calls
SIGNATURE = dict(
    ROE=["dwell_times", "prescan_offset", "prescan_length", "overscan_start", "empty_traps_between_columns",
         "empty_traps_for_first_transfers", "force_release_away_from_readout", "use_integer_express_matrix"],
    ROEChargeInjection=["dwell_times", "prescan_offset", "prescan_length", "overscan_start", "empty_traps_between_columns",
                        "force_release_away_from_readout", "use_integer_express_matrix"],
    ROETrapPumping=["dwell_times", "prescan_offset", "prescan_length", "overscan_start", "n_pumps", "empty_traps_for_first_transfers",
                    "use_integer_express_matrix"],
    CCDPhase=["full_well_depth", "well_notch_depth", "well_fill_power", "first_electron_fill"],
    CCD=["phases", "fraction_of_traps_per_phase"],
    TrapInstantCapture=["density", "release_timescale", "fractional_volume_none_exposed", "fractional_volume_full_exposed"],
    TrapSlowCapture=["density", "release_timescale", "capture_timescale"],
    TrapInstantCaptureContinuum=["density", "release_timescale", "release_timescale_sigma"],
    TrapSlowCaptureContinuum=["density", "release_timescale", "release_timescale_sigma", "capture_timescale"],
    PixelBounce=["kA", "kv", "gamma", "omega"],
)
DEFAULT = dict(
    ROE=dict(dwell_times=[1.0], prescan_offset=0, overscan_start=-1, empty_traps_between_columns=True,
             empty_traps_for_first_transfers=False, force_release_away_from_readout=True, use_integer_express_matrix=False),
    CCDPhase=dict(full_well_depth=1e4, well_notch_depth=0.0, well_fill_power=1.0, first_electron_fill=0.0),
    Trap=dict(density=1.0, release_timescale=1.0, fractional_volume_none_exposed=0.0, fractional_volume_full_exposed=0.0,
              capture_timescale=0.0, release_timescale_sigma=0.0),
    PixelBounce=dict(kA=0.0, kv=0.0, gamma=1.0, omega=1.0),
)


def obj(r, cls, given, defaults):
    """an object made with these arguments: those at their defaults are given or not, a leading run of them by position or name"""
    g = {k: v for k, v in given.items() if not (defaults.get(k, None) == v and r.random() < 0.6)}
    if "full_well_depth" in given and cls == "CCD":
        g["full_well_depth"] = given["full_well_depth"]
    o = dict(cls=cls, given=g)
    sig = SIGNATURE[cls]
    if r.random() < 0.35:
        n = 0
        while n < len(sig) and sig[n] in g:
            n += 1
        if n:
            o["positional"] = sig[:n]
    if r.random() < 0.3:
        o["shared"] = 1
    return o


def roe(r, x):
    g = dict(dwell_times=x["dwell"], prescan_offset=x["prescan"], overscan_start=x["overscan"],
             empty_traps_between_columns=bool(x["ebc"]), empty_traps_for_first_transfers=bool(x["eft"]),
             force_release_away_from_readout=bool(x["fra"]), use_integer_express_matrix=bool(x["intm"]))
    if r.random() < 0.2:
        g["prescan_length"] = r.randint(0, 9)
    if x["type"] == 0:
        return obj(r, "ROE", g, DEFAULT["ROE"])
    if x["type"] == 1:
        del g["empty_traps_for_first_transfers"]
        if r.random() < 0.4:
            n = r.randint(0, x["prescan"])
            g = dict(g, prescan_offset=x["prescan"] - n, empty_traps_for_first_transfers=r.random() < 0.5)
            return dict(cls="from_normal_roe", roe=obj(r, "ROE", g, DEFAULT["ROE"]), n=n, given=dict())
        return obj(r, "ROEChargeInjection", g, DEFAULT["ROE"])
    g = dict(dwell_times=x["dwell"], n_pumps=x["npumps"], empty_traps_for_first_transfers=bool(x["eft"]),
             use_integer_express_matrix=bool(x["intm"]))
    return obj(r, "ROETrapPumping", g, dict(DEFAULT["ROE"], dwell_times=[0.5, 0.5], n_pumps=1))


def ccd(r, x):
    names = dict(fw="full_well_depth", notch="well_notch_depth", beta="well_fill_power", fef="first_electron_fill")
    ps = [{names[k]: v for k, v in p.items()} for p in x["phases"]]
    if len(ps) == 1 and x["frac"] == [1.0] and r.random() < 0.5:
        o = obj(r, "CCD", ps[0], DEFAULT["CCDPhase"])
        o.pop("positional", None)
        return o
    g = dict(phases=[obj(r, "CCDPhase", p, DEFAULT["CCDPhase"]) for p in ps], fraction_of_traps_per_phase=x["frac"])
    return obj(r, "CCD", g, dict(fraction_of_traps_per_phase=[1.0]))


def trap_list(r, t):
    """species of all kinds in any order: their order within a kind is that of t"""
    one = dict(ic="TrapInstantCapture", sc="TrapSlowCapture", icco="TrapInstantCaptureContinuum", scco="TrapSlowCaptureContinuum")
    name = dict(d="density", tau="release_timescale", va="fractional_volume_none_exposed", vb="fractional_volume_full_exposed",
                tc="capture_timescale", sig="release_timescale_sigma")
    q = {k: [obj(r, one[k], {name[a]: b for a, b in x.items()}, DEFAULT["Trap"]) for x in t[k]] for k in one}
    out = []
    while any(q.values()):
        k = r.choice([k for k in q if q[k]])
        out.append(q[k].pop(0))
    return out


def given(r, s):
    """the arguments of the call that is scenario s"""
    g = {}
    for side, d in (("parallel", s["P"]), ("serial", s["S"])):
        if d is None:
            continue
        n = dict(roe=roe(r, d["roe"]), ccd=ccd(r, d["ccd"]), traps=trap_list(r, d["traps"]), express=d["express"], window_offset=d["offset"],
                 window_start=d["w0"], window_stop=d["w1"], prune_n_electrons=d["prune_n"], prune_frequency=d["prune_f"])
        usual = dict(express=0, window_offset=0, window_start=0, window_stop=-1, prune_n_electrons=1e-10, prune_frequency=20)
        for k, v in n.items():
            if not (k in usual and usual[k] == v and r.random() < 0.6):
                g[side + "_" + k] = v
    # windows without clocking in the direction
    if "allow" in s:
        g["allow_negative_pixels"] = s["allow"]
    elif s["neg"] != 1 or r.random() < 0.3:
        g["allow_negative_pixels"] = s["neg"]
    keys = list(g)
    r.shuffle(keys)
    return {k: g[k] for k in keys}


HOWS = ("c", "c", "f", "t", "strided", "inner", "reversed", "readonly", "subclass", "list")


def layout(r, im):
    """an arrangement and type of array, and the image as that type has it"""
    dt = r.choice(("f8", "f8", "f8", "f8", "f4", "i4", "i8", "u2", "i2", ">f8", ">f4", ">i2", "g"))
    if dt in ("f4", ">f4"):
        im = [[scn_f4(x) for x in row] for row in im]
    elif dt.strip(">")[0] in "iu":
        im = [[float(int(max(0 if "u" in dt else -30000, min(x, 30000)))) for x in row] for row in im]
    return dict(dtype=dt, how=r.choice(HOWS)), im


def scn_f4(x):
    import struct
    return struct.unpack(">f", struct.pack(">f", x))[0]


def cti(r, s, **kw):
    """scenario s as a call"""
    lay, im = layout(r, s["image"])
    s["image"] = im
    return dict(op="cti", fn="remove_cti" if s["mode"] == 2 else "add_cti", iters=s["iters"], image=im, layout=lay, given=given(r, s),
                header=int(r.random() < 0.2), verbosity=1 if r.random() < 0.1 else 0, **kw)


# ---------------------------------------------------------------- JSON for TLC
INTS = {"prescan_offset", "prescan_length", "overscan_start", "n_pumps", "parallel_express", "parallel_window_offset", "parallel_window_start",
        "parallel_window_stop", "parallel_prune_frequency", "serial_express", "serial_window_offset", "serial_window_start",
        "serial_window_stop", "serial_prune_frequency", "allow_negative_pixels", "empty_traps_between_columns",
        "empty_traps_for_first_transfers", "force_release_away_from_readout", "use_integer_express_matrix"}


def j_given(g):
    out = {"none": 0}
    for k, v in g.items():
        if k in INTS:
            out[k] = int(v)
        elif isinstance(v, dict):
            out[k] = j_given(v["given"]) if v["cls"] == "CCD" else j_obj(v)
        elif isinstance(v, list) and k == "phases":
            out[k] = [j_given(x["given"]) for x in v]
        elif isinstance(v, list) and k == "pixel_bounce_list":
            out[k] = [j_given(x["given"]) for x in v]
        elif isinstance(v, list) and k.endswith("_traps"):
            out[k] = [j_obj(x) for x in v]
        elif isinstance(v, list):
            out[k] = scn.j_nums(v)
        else:
            out[k] = scn.pair(v)
    return out


def j_obj(x):
    o = dict(cls=x["cls"], given=j_given(x["given"]))
    if x["cls"] == "from_normal_roe":
        o.update(roe=j_obj(x["roe"]), n=x["n"])
    return o


def j_call(x, res, ident, clampfirst=0, rel=1e-9):
    a = 1e-9 * max([1.0] + [abs(v) for row in x["image"] for v in row])
    o = dict(id=str(ident), image=scn.j_image(x["image"]), fn=x["fn"], iters=x["iters"], clampfirst=clampfirst, given=j_given(x["given"]),
             out=scn.j_image(res["image"]), rel=scn.pair(rel), abs=scn.pair(a), kept=int(res["unchanged"] and res["settings"] and not res["alias"]))
    if "acs" in x:
        o["acs"] = scn.pair(x["acs"])
    return o
