"""Makes calls of the Python package: pydriver.py CALLS.json RESULTS [FROM]

CALLS.json is a list of calls (see lib/pycall.py).  RESULTS gets a line of JSON for each, as soon as it is made;
numbers are written as the 16 hexadecimal digits of the bits of a double.  Starts with call number FROM.
"""
import contextlib
import ctypes
import copy
import io
import json
import os
import signal
import struct
import sys
import tempfile
import warnings

import numpy as np

warnings.simplefilter("ignore")
import arcticpy  # noqa: E402
from arcticpy import read_noise as rn_module  # noqa: E402

LIBC = ctypes.CDLL(None)
OMP = ctypes.CDLL("libgomp.so.1")


def hx(x):
    return struct.pack(">d", float(x)).hex()


def h1(v):
    return [hx(x) for x in v]


def h2(im):
    return [h1(row) for row in np.asarray(im, dtype=np.float64)]


# ---------------------------------------------------------------- arrays
def array(rows, layout):
    a = np.array(rows, dtype=np.dtype(layout.get("dtype", "f8")))
    how = layout.get("how", "c")
    if how == "f":
        a = np.asfortranarray(a)
    elif how == "t":
        a = np.ascontiguousarray(a.T).T
    elif how == "strided":
        b = np.full((a.shape[0] * 2 + 1, a.shape[1] * 3 + 1), 77, dtype=a.dtype)
        b[1:1 + 2 * a.shape[0]:2, 1:1 + 3 * a.shape[1]:3] = a
        a = b[1:1 + 2 * a.shape[0]:2, 1:1 + 3 * a.shape[1]:3]
    elif how == "inner":
        b = np.full((a.shape[0] + 4, a.shape[1] + 5), 55, dtype=a.dtype)
        b[2:2 + a.shape[0], 3:3 + a.shape[1]] = a
        a = b[2:2 + a.shape[0], 3:3 + a.shape[1]]
    elif how == "reversed":
        a = a[::-1, ::-1].copy()[::-1, ::-1]
    elif how == "readonly":
        a.flags.writeable = False
    elif how == "subclass":
        a = arcticpy.cti.ndarray_plus(np.array(a, dtype=a.dtype))
    elif how == "list":
        return [[x.item() for x in row] for row in a]
    return a


# ---------------------------------------------------------------- objects
def make(x, memo):
    """objects are described by [cls, given(, positional)]; the same description twice may be the same object"""
    key = json.dumps(x, sort_keys=True)
    if x.get("shared") and key in memo:
        return memo[key]
    g = dict(x.get("given", {}))
    cls = x["cls"]
    if cls == "CCD" and "phases" in g:
        g["phases"] = [make(p, memo) for p in g["phases"]]
    if cls == "from_normal_roe":
        o = arcticpy.ROEChargeInjection.from_normal_roe(make(x["roe"], memo), x["n"])
    elif x.get("positional"):
        o = getattr(arcticpy, cls)(*[g[k] for k in x["positional"]], **{k: v for k, v in g.items() if k not in x["positional"]})
    else:
        o = getattr(arcticpy, cls)(**g)
    memo[key] = o
    return o


def arguments(given, memo):
    out = {}
    for k, v in given.items():
        if k.endswith("_traps") or k == "pixel_bounce_list":
            out[k] = [make(t, memo) for t in v]
        elif k.endswith("_roe") or k.endswith("_ccd"):
            out[k] = make(v, memo)
        else:
            out[k] = v
    return out


def state(o):
    """the contents of settings, to see that they have not been changed"""
    if isinstance(o, (list, tuple)):
        return [state(x) for x in o]
    if isinstance(o, np.ndarray):
        return (o.shape, str(o.dtype), o.tobytes())
    if isinstance(o, dict):
        return {k: state(v) for k, v in o.items()}
    if hasattr(o, "__dict__"):
        return (type(o).__name__, state({k: v for k, v in vars(o).items() if not k.startswith("_")}))
    return repr(o)


class Header:
    def __init__(self):
        self.d = {}

    def set(self, key, value=None, comment=None):
        self.d[key] = [value, comment]


def snapshot(a):
    return copy.deepcopy(a) if isinstance(a, list) else (a.shape, str(a.dtype), np.array(a, copy=True).tobytes())


# ---------------------------------------------------------------- calls
def cti(x):
    memo = {}
    kw = arguments(x["given"], memo)
    im = array(x["image"], x["layout"])
    if "acs" in x:
        p_roe, p_ccd, p_traps = arcticpy.CTI_model_for_HST_ACS(x["acs"])[:3]
        kw.update(parallel_roe=p_roe, parallel_ccd=p_ccd, parallel_traps=p_traps)
    before, settings = snapshot(im), state(kw)
    if x.get("header"):
        kw["header"] = Header()
    kw["verbosity"] = x.get("verbosity", 0)
    if x["fn"] == "add_cti":
        out = arcticpy.add_cti(im, **kw)
    else:
        if x.get("noise"):
            kw["remove_read_noise"] = x["noise"]
        out = arcticpy.remove_cti(im, x["iters"], **kw)
    r = dict(image=h2(out), unchanged=int(snapshot(im) == before), dtype=str(out.dtype), array=int(isinstance(out, np.ndarray)))
    kw.pop("header", None)
    kw.pop("verbosity", None)
    kw.pop("remove_read_noise", None)
    r["settings"] = int(state(kw) == settings)
    r["alias"] = int(isinstance(im, np.ndarray) and np.may_share_memory(im, out))
    return r


def acs(x):
    p_roe, p_ccd, p_traps, s_roe, s_ccd, s_traps = arcticpy.CTI_model_for_HST_ACS(x["date"])

    def roe(o):
        return dict(type=int(o.type), dwell=h1(o.dwell_times), prescan=int(o.prescan_offset), overscan=int(o.overscan_start),
                    ebc=int(o.empty_traps_between_columns), eft=int(o.empty_traps_for_first_transfers),
                    fra=int(o.force_release_away_from_readout), intm=int(o.use_integer_express_matrix),
                    length=int(o.prescan_length), noise=hx(o.read_noise))

    def ccd(o):
        return dict(frac=h1(o.fraction_of_traps_per_phase), fw=h1(o.full_well_depths), notch=h1(o.well_notch_depths),
                    beta=h1(o.well_fill_powers), fef=h1(o.first_electron_fills))
    return dict(P=dict(roe=roe(p_roe), ccd=ccd(p_ccd)), S=dict(roe=roe(s_roe), ccd=ccd(s_ccd)), none=int(s_traps is None),
                kinds=[type(t).__name__ for t in p_traps],
                traps=[dict(d=hx(t.density), tau=hx(t.release_timescale), va=hx(t.fractional_volume_none_exposed),
                            vb=hx(t.fractional_volume_full_exposed)) for t in p_traps])


def volume(x):
    p = make(x["phase"], {})
    if x.get("scalar"):
        v = [p.volume(n) for n in x["n"]]
    else:
        a = np.array(x["n"])
        if x.get("flat") == 0 and len(x["n"]) % 5 == 0:
            a = a.reshape((5, -1))
        b, settings = a.copy(), state(p)
        v = np.asarray(p.volume(a))
        # what it is asked about, and the detector itself, stay as they were
        v = v.ravel() if v.shape == a.shape and (a == b).all() and state(p) == settings else [float("nan")] * len(x["n"])
    return dict(v=h1(v))


def bounce(x):
    im = array(x["image"], x["layout"])
    before = snapshot(im)
    os = [make(o, {}) for o in x["osc"]]
    settings = state(os)
    w = x["window"]
    how = x["how"]
    if how == "add":
        out = os[0].add_pixel_bounce(im, verbosity=0, **w)
    elif how == "bias":
        out = os[0].perturb_bias(im, verbosity=0, **w)
    elif how == "slow":
        out = os[0].add_pixel_bounce_slow(im)
    elif how == "remove":
        out = os[0].remove_pixel_bounce(im, x["iters"], verbosity=0, **w)
    elif how == "adds":
        out = arcticpy.add_pixel_bounce(im, pixel_bounce_list=os, verbosity=0, **w)
    elif how == "removes":
        out = arcticpy.remove_pixel_bounce(im, x["iters"], pixel_bounce_list=os, verbosity=0, **w)
    return dict(image=h2(out), unchanged=int(snapshot(im) == before), settings=int(state(os) == settings))


def noise(x):
    OMP.omp_set_num_threads(x.get("threads", 1))
    im, sm = array(x["image"], x["layout"]), array(x["smooth"], x["layout2"])
    b1, b2 = snapshot(im), snapshot(sm)
    f = rn_module.w.cy_determine_read_noise_model
    out = f(im, sm, x["amp"], x["frac"], x["cols"])
    return dict(image=h2(out), unchanged=int(snapshot(im) == b1 and snapshot(sm) == b2))


def split(x):
    OMP.omp_set_num_threads(x.get("threads", 1))
    im = array(x["image"], x["layout"])
    before = snapshot(im)
    o = arcticpy.ReadNoise(**x["given"])
    a = [] if x["share"] is None else [x["share"]]
    s, r = o.generate_SR_frames_from_image(im, *a)
    return dict(S=h2(s), R=h2(r), unchanged=int(snapshot(im) == before))


FIGURES = ("column", "row", "ring", "box")


def matrix(m):
    f = {n + a: hx(getattr(m, n + a)) for n in FIGURES for a in ("", "abs")}
    f["variance"] = hx(m.autocorrelation)
    return dict(m=h2(m), f=f, middle=[int(v) for v in m.middle], kind=type(m).__name__)


def covar(x):
    """covariance matrices, and the figures of merit that they have"""
    size = x["size"][0] if x.get("number") else tuple(x["size"])
    how = x["what"]
    if how == "default":
        return dict(out=[matrix(arcticpy.CovarianceMatrix(size) if x.get("positional") else arcticpy.CovarianceMatrix(matrix_size=size))],
                    unchanged=1)
    im = array(x["image"], x["layout"])
    before = snapshot(im)
    if how == "values":
        out = [arcticpy.CovarianceMatrix(values=im)]
    elif how == "corners":
        o = arcticpy.ReadNoise(1.0, n_pixels_for_covar=tuple(x["n"]))
        out = o.covariance_matrix_in_corners_of_image(im, **({} if x.get("unsized") else dict(matrix_size=size)))
    else:
        kw = {} if x.get("unsized") else dict(matrix_size=size)
        if x["border"] != [5, 5, 0, 0] or x.get("bordered"):
            kw["border"] = x["border"]
        start = arcticpy.CovarianceMatrix()
        out = [start.from_image(im, **kw)]
    return dict(out=[matrix(m) for m in out], unchanged=int(snapshot(im) == before))


ROE_NUMBERS = ("pixel_bounce_kA", "pixel_bounce_kv", "pixel_bounce_omega", "pixel_bounce_gamma", "read_noise")
ROE_INTEGERS = ("prescan_offset", "prescan_length", "overscan_start", "empty_traps_between_columns", "empty_traps_for_first_transfers",
                "force_release_away_from_readout", "use_integer_express_matrix", "n_pumps", "type")
TRAP_NUMBERS = ("density", "release_timescale", "fractional_volume_none_exposed", "fractional_volume_full_exposed", "capture_timescale",
                "release_timescale_sigma")
CCD_ARRAYS = dict(fw="full_well_depths", notch="well_notch_depths", beta="well_fill_powers", fef="first_electron_fills",
                  frac="fraction_of_traps_per_phase")


def attributes(o):
    if isinstance(o, arcticpy.ROE):
        return dict({k: hx(getattr(o, k)) for k in ROE_NUMBERS}, **dict({k: int(getattr(o, k)) for k in ROE_INTEGERS}, dwell_times=h1(o.dwell_times)))
    if isinstance(o, arcticpy.CCD):
        return {k: h1(getattr(o, n)) for k, n in CCD_ARRAYS.items()}
    return {k: hx(getattr(o, k)) for k in TRAP_NUMBERS if hasattr(o, k)}


def objects(x):
    """what an object of the package says of itself, or one made from it"""
    o = make(x["object"], {})
    before = state(o)
    r = dict(cls=type(o).__name__, out=attributes(o))
    if x["what"] == "poisson":
        given = [x["total"]] + ([x["seed"]] if x.get("positional") else [])
        named = {} if x.get("positional") else dict(seed=x["seed"])
        p = o.poisson_density_from(*given, **named)
        np.random.random(x["seed"] % 5)
        q = o.poisson_density_from(*given, **named)
        r.update(drawn=attributes(p), again=attributes(q), cls=type(p).__name__)
    elif x["what"] == "poissons":
        r["drawn"] = h1([o.poisson_density_from(x["total"], seed=k).density for k in range(x["seed"], x["seed"] + x["many"])])
    elif x["what"] == "ellipticity":
        r["value"] = hx(o.delta_ellipticity)
    r["unchanged"] = int(state(o) == before)
    return r


def printed(x):
    a = array(x["image"], x["layout"])
    before = h2(a)
    if x["form"] == "row":
        a = a[0]
    sys.stdout.flush()
    keep = os.dup(1)
    with tempfile.TemporaryFile() as f:
        os.dup2(f.fileno(), 1)
        try:
            (arcticpy.print_array if x["form"] == "row" else arcticpy.print_array_2D)(a)
            LIBC.fflush(None)
        finally:
            os.dup2(keep, 1)
            os.close(keep)
        f.seek(0)
        text = f.read().decode()
    return dict(text=text, after=h2(a if x["form"] == "image" else [a]), unchanged=1)


PARTS = dict(rows=lambda a: a[1:], columns=lambda a: a[:, :1], copy=lambda a: a.copy(), transposed=lambda a: a.T, pixel=lambda a: a[:1, :1],
             again=lambda a: a[:][:])


def record(x):
    """calls that share a header; images may be those that the call before returned"""
    h = Header()
    for k, v in x["before"].items():
        h.d[k] = list(v)
    outs, headers, parts, plain = [], [], [], []
    for y in x["calls"]:
        im = array(y["image"], y["layout"])
        if y["chain"] and outs and outs[-1].shape == np.shape(im):
            im = outs[-1]

        def call(**more):
            kw = arguments(y["given"], {})
            kw.update(more, verbosity=0)
            if y["fn"] == "add_cti":
                return arcticpy.add_cti(im, **kw)
            if y["noise"]:
                kw["remove_read_noise"] = y["noise"]
            return arcticpy.remove_cti(im, y["iters"], **kw)
        plain.append(h2(call()))
        outs.append(call(header=h) if y["header"] else call())
        headers.append({k: list(v) for k, v in h.d.items()})
        parts.append(PARTS[y["part"]](outs[-1]))

    def h4(a):
        return [[h2(c) for c in b] for b in a]
    r = dict(headers=headers, cov=[h4(o.covariance) for o in outs], part=[h4(o.covariance) for o in parts], plain=plain,
             image=[h2(o) for o in outs], version=arcticpy.cti.w.cy_version_arctic(), own=[])
    for k, o in enumerate(outs):
        o.covariance[...] = 7
        r["own"].append(int(all(h4(p.covariance) == r["cov"][j] for j, p in enumerate(outs) if j > k)))
    return r


OPS = dict(record=record, printed=printed, objects=objects, covar=covar, cti=cti, acs=acs, volume=volume, bounce=bounce, noise=noise, split=split)


def main():
    calls = json.load(open(sys.argv[1]))
    start, patience = int(sys.argv[3]), int(sys.argv[4])
    with open(sys.argv[2], "a") as out:
        for k in range(start, len(calls)):
            x = calls[k]
            signal.alarm(patience)      # ends the process
            try:
                with contextlib.redirect_stdout(io.StringIO()):
                    r = OPS[x["op"]](x)
                r["outcome"] = "ok"
            except Exception as e:
                r = dict(outcome="raise %s: %s" % (type(e).__name__, str(e)[:300]))
            out.write(json.dumps(r) + "\n")
            out.flush()


main()
