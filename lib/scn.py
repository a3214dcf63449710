"""Scenarios: python dictionaries <-> tokens of the C++ harness <-> JSON for TLC.

A double is carried to TLC as the pair <<hi, lo>> of signed 32-bit halves of its IEEE bits
(spec/Num.tla over the double back-end), so nothing is rounded on the way.
"""
import copy
import math
import os
import re
import struct


def bits(x):
    return struct.unpack(">q", struct.pack(">d", float(x)))[0]


def pair(x):
    hi, lo = struct.unpack(">ii", struct.pack(">d", float(x)))
    return [hi, lo]


def from_hex(h):
    return struct.unpack(">d", bytes.fromhex(h))[0]


def tok(x):
    if isinstance(x, bool):
        return "1" if x else "0"
    if isinstance(x, int):
        return str(x)
    if isinstance(x, float):
        return float(x).hex() if math.isfinite(x) else repr(x)
    return str(x)


def D(x):
    """a double token"""
    return float(x).hex() if math.isfinite(x) else repr(float(x))


# ---------------------------------------------------------------- builders
def roe(type=0, dwell=(1.0,), prescan=0, overscan=-1, ebc=1, eft=0, fra=1, intm=0, npumps=1):
    return dict(type=type, dwell=list(dwell), prescan=prescan, overscan=overscan, ebc=int(ebc),
                eft=int(eft), fra=int(fra), intm=int(intm), npumps=npumps)


def phase(fw=1e4, notch=0.0, beta=1.0, fef=0.0):
    return dict(fw=fw, notch=notch, beta=beta, fef=fef)


def ccd(phases=None, frac=None):
    phases = phases or [phase()]
    return dict(phases=phases, frac=frac if frac is not None else [1.0 / len(phases)] * len(phases))


def traps(ic=(), sc=(), icco=(), scco=()):
    """ic: (d, tau[, va, vb]); sc: (d, tau, tc); icco: (d, tau, sig); scco: (d, tau, sig, tc)"""
    return dict(
        ic=[dict(d=t[0], tau=t[1], va=t[2] if len(t) > 2 else 0.0, vb=t[3] if len(t) > 3 else 0.0) for t in ic],
        sc=[dict(d=t[0], tau=t[1], tc=t[2]) for t in sc],
        icco=[dict(d=t[0], tau=t[1], sig=t[2]) for t in icco],
        scco=[dict(d=t[0], tau=t[1], sig=t[2], tc=t[3]) for t in scco],
    )


def dirn(roe_=None, ccd_=None, traps_=None, express=0, offset=0, w0=0, w1=-1, prune_n=1e-10,
         prune_f=0, null_empty=1):
    return dict(roe=roe_ or roe(), ccd=ccd_ or ccd(), traps=traps_ or traps(ic=[(10.0, 1.0)]),
                express=express, offset=offset, w0=w0, w1=w1, prune_n=prune_n, prune_f=prune_f,
                null_empty=null_empty)


def img(image, P=None, S=None, mode=1, iters=1, neg=1, verb=0, threads=1, c0=0, c1=-1):
    return dict(kind="img", image=[list(map(float, r)) for r in image], P=P, S=S, mode=mode, iters=iters,
                neg=neg, verb=verb, threads=threads, c0=c0, c1=c1)


def mgr(kind, traps_, ops, phase_=None, dwell=1.0, frac=1.0, max_t=None):
    return dict(kind="mgr", mkind=kind, traps=traps_, ops=ops, phase=phase_ or phase(), dwell=dwell,
                frac=frac, max_t=max_t if max_t is not None else max(1, sum(1 for o in ops if o[0] == "t")))


# ---------------------------------------------------------------- tokens
def t_roe(r):
    return [tok(r["type"]), tok(len(r["dwell"]))] + [D(x) for x in r["dwell"]] + [
        tok(int(r[k])) for k in ("prescan", "overscan", "ebc", "eft", "fra", "intm", "npumps")]


def t_phase(p):
    return [D(p["fw"]), D(p["notch"]), D(p["beta"]), D(p["fef"])]


def t_ccd(c):
    o = [tok(len(c["phases"]))]
    for p in c["phases"]:
        o += t_phase(p)
    if len(c["phases"]) == 1 and c["frac"] == [1.0]:
        return o + ["0"]
    return o + [tok(len(c["frac"]))] + [D(x) for x in c["frac"]]


def t_traps(t):
    o = [tok(len(t["ic"]))]
    for x in t["ic"]:
        o += [D(x["d"]), D(x["tau"]), D(x["va"]), D(x["vb"])]
    o.append(tok(len(t["sc"])))
    for x in t["sc"]:
        o += [D(x["d"]), D(x["tau"]), D(x["tc"])]
    o.append(tok(len(t["icco"])))
    for x in t["icco"]:
        o += [D(x["d"]), D(x["tau"]), D(x["sig"])]
    o.append(tok(len(t["scco"])))
    for x in t["scco"]:
        o += [D(x["d"]), D(x["tau"]), D(x["sig"]), D(x["tc"])]
    return o


def t_dir(d):
    if d is None:
        return ["0"]
    return (["1"] + t_roe(d["roe"]) + t_ccd(d["ccd"]) + t_traps(d["traps"]) +
            [tok(int(d["null_empty"])), tok(d["express"]), tok(d["offset"]), tok(d["w0"]), tok(d["w1"]),
             D(d["prune_n"]), tok(d["prune_f"])])


def t_image(im):
    o = [tok(len(im)), tok(len(im[0]))]
    for r in im:
        o += [D(x) for x in r]
    return o


def tokens(s):
    k = s["kind"]
    if k == "img":
        o = ["img"] + [tok(int(s[x])) for x in ("mode", "iters", "neg", "verb", "threads")] + [tok(int(s.get("copies", 0)))]
        o += t_image(s["image"]) + t_dir(s["P"]) + t_dir(s["S"])
        if s["mode"] == 0:
            o += [tok(s["c0"]), tok(s["c1"])]
        return o
    if k == "seq":
        o = ["seq"] + t_image(s["image"]) + t_dir(s["P"]) + t_dir(s["S"]) + [tok(len(s["calls"]))]
        for c in s["calls"]:
            o += [tok(int(c[x])) for x in ("mode", "iters", "neg", "verb", "threads")]
        return o
    if k == "mix":
        o = ["mix", tok(len(s["scens"]))]
        for x in s["scens"]:
            o += tokens(x)[1:]
        return o
    if k == "mgr":
        o = ["mgr", s["mkind"], tok(s["max_t"])] + t_phase(s["phase"]) + [D(s["dwell"]), D(s["frac"])]
        o += t_traps(s["traps"]) + [tok(len(s["ops"]))]
        for op in s["ops"]:
            o.append(op[0])
            if op[0] in "tp":
                o.append(D(op[1]))
        return o
    if k == "roe":
        return ["roe"] + t_roe(s["roe"]) + [tok(s["rows"]), tok(s["express"]), tok(s["offset"])]
    if k == "vol":
        return ["vol"] + t_phase(s["phase"]) + [tok(len(s["n"]))] + [D(x) for x in s["n"]]
    if k == "trap":
        o = ["trap", s["tkind"]] + t_traps(s["traps"]) + [tok(len(s["calls"]))]
        for c in s["calls"]:
            o.append(c[0])
            o += [tok(a) if isinstance(a, int) else D(a) for a in c[1:]]
        return o
    if k == "transpose":
        return ["transpose"] + t_image(s["image"])
    if k == "txt":
        return ["txt", s["path"]] + t_image(s["image"])
    if k == "load":
        return ["load", s["path"]]
    if k == "save":
        return ["save", s["path"]] + t_image(s["image"])
    if k == "print":
        return ["print", s["form"], s["path"], tok(s["cols"])] + t_image(s["image"])
    if k == "time":
        return ["time"] + [tok(int(x)) for x in s["t"]]
    if k == "clamp":
        return ["clamp"] + [D(x) for x in s["a"]]
    if k == "arange":
        return ["arange"] + [D(x) for x in s["a"]]
    raise KeyError(k)


# ---------------------------------------------------------------- results
class R:
    def __init__(self, toks):
        self.t = toks
        self.p = 0

    def s(self):
        self.p += 1
        return self.t[self.p - 1]

    def i(self):
        return int(self.s())

    def d(self):
        return from_hex(self.s())

    def image(self):
        r, c = self.i(), self.i()
        return [[self.d() for _ in range(c)] for _ in range(r)]


def parse(s, outcome, toks):
    """-> dict(outcome=..., ...)"""
    res = dict(outcome=outcome)
    if outcome != "ok":
        return res
    r = R(toks)
    k = s["kind"]
    if k == "img":
        res["image"] = r.image()
        res["input_same"] = r.i()
    elif k == "seq":
        res["images"] = [r.image() for _ in range(r.i())]
        res["input"] = r.image()
    elif k == "mix":
        res["images"], res["same"] = [], []
        for _ in range(r.i()):
            res["images"].append(r.image())
            res["same"].append(r.i())
    elif k == "mgr":
        nt = len(s["traps"][s["mkind"]])
        res["capacity"] = r.i()
        res["ops"] = []
        for _ in range(r.i()):
            o = dict(ret=r.d(), trapped=r.d(), inside=r.i())
            o["wmk"] = [dict(v=r.d(), f=[r.d() for _ in range(nt)]) for _ in range(r.i())]
            res["ops"].append(o)
    elif k == "roe":
        res["passes"] = r.i()
        n = r.i()
        res["E"] = [r.d() for _ in range(n)]
        n = r.i()
        res["store"] = [r.i() for _ in range(n)]
        ns, np = r.i(), r.i()
        res["steps"], res["nphases"] = ns, np
        seq = []
        for _ in range(ns):
            row = []
            for _ in range(np):
                h = r.i()
                cap = [r.i() for _ in range(r.i())]
                n = r.i()
                rel = [r.i() for _ in range(n)]
                fr = [r.d() for _ in range(n)]
                row.append(dict(high=h, cap=cap, rel=rel, frac=fr))
            seq.append(row)
        res["clock"] = seq
    elif k == "vol" or k == "trap":
        res["v"] = [r.d() for _ in range(r.i())]
    elif k == "transpose":
        res["t"] = r.image()
        res["tt"] = r.image()
        res["input"] = r.image()
        res["flat"] = [r.d() for _ in range(r.i())]
    elif k == "txt":
        res["a"] = r.image()
        res["b"] = r.image()
    elif k == "load":
        res["image"] = r.image()
    elif k == "print":
        res["input"] = r.image()
        with open(s["path"]) as f:
            res["text"] = f.read()
        os.unlink(s["path"])
    elif k in ("time", "clamp"):
        res["v"] = r.d()
    elif k == "arange":
        res["v"] = [r.d() for _ in range(r.i())]
    return res


def clone(s):
    return copy.deepcopy(s)


# ---------------------------------------------------------------- JSON for TLC
NUMBER = re.compile(r"[-+]?(?:[0-9]+\.?[0-9]*|\.[0-9]+)(?:[eE][-+]?[0-9]+)?|nan|-?inf")


def j_printed(form, cols, image, after, text):
    """a printed array as its shape, with an n for each number, and its numbers"""
    return dict(kind="print", form=form, cols=cols, im=j_image(image), input=j_image(after),
                form_of=NUMBER.sub("n", text), values=j_nums([float(t) for t in NUMBER.findall(text)]))


def j_image(im):
    return [[pair(x) for x in row] for row in im]


def j_nums(v):
    return [pair(x) for x in v]


def j_roe(r):
    o = dict(r)
    o["dwell"] = j_nums(r["dwell"])
    if r["type"] == 1:
        o["eft"] = 0
    if r["type"] == 2:
        o.update(prescan=0, overscan=-1, ebc=1, fra=0)
    return o


def j_phase(p):
    return {k: pair(p[k]) for k in ("fw", "notch", "beta", "fef")}


def j_traps(t):
    o = {}
    for k in ("ic", "sc", "icco", "scco"):
        o[k] = []
        for x in t[k]:
            y = {a: pair(b) for a, b in x.items()}
            if k == "icco":
                y["tc"] = pair(0.0)
            o[k].append(y)
    return o


def j_dir(d):
    if d is None:
        return 0
    return dict(roe=j_roe(d["roe"]), ccd=dict(phases=[j_phase(p) for p in d["ccd"]["phases"]],
                                              frac=j_nums(d["ccd"]["frac"])),
                traps=j_traps(d["traps"]), express=d["express"], offset=d["offset"], w0=d["w0"], w1=d["w1"],
                prune_n=pair(d["prune_n"]), prune_f=d["prune_f"])


def runs(d, mode):
    """does this direction run at all?"""
    if d is None:
        return 0
    if mode == 0 or not d["null_empty"]:
        return 1
    return 1 if any(d["traps"][k] for k in ("ic", "sc", "icco", "scco")) else 0


def window(d):
    return [d["w0"], d["w1"]] if d else [0, -1]


# The code integrates over a continuum of timescales to a relative accuracy of 1e-6
ROUND, INTEGRAL = 1e-9, 1e-6


def j_img(s, out, ident, rel=None, abs_=None):
    if rel is None:
        co = any(t["d"] for d in (s["P"], s["S"]) if d for k in ("icco", "scco") for t in d["traps"][k])
        rel = INTEGRAL if co else ROUND
    if abs_ is None:
        abs_ = rel * max([1.0] + [abs(x) for row in s["image"] for x in row])
    return dict(id=str(ident), image=j_image(s["image"]), mode=s["mode"], iters=s["iters"], neg=int(s["neg"]),
                hasP=runs(s["P"], s["mode"]), hasS=runs(s["S"], s["mode"]) if s["mode"] else 0,
                P=j_dir(s["P"]), S=j_dir(s["S"]), pw=window(s["P"]), sw=window(s["S"]), c0=s["c0"], c1=s["c1"], out=j_image(out),
                rel=pair(rel), abs=pair(abs_))


def j_levels(wmk):
    """levels as (cumulative depth, fills) from the volumes the code keeps"""
    out, t = [], 0.0
    for w in wmk:
        t += w["v"]
        out.append(dict(t=pair(t), f=j_nums(w["f"])))
    return out


CLASSES = ("conserve", "count", "bounds", "state", "returned", "profile", "prune", "exact")


def j_mgr(s, res, ident, rel=None, want=CLASSES):
    if rel is None:
        rel = INTEGRAL if s["mkind"] in ("icco", "scco") else ROUND
    ops = []
    exact = s.get("exact")
    for k, (op, o) in enumerate(zip(s["ops"], res["ops"])):
        ops.append(dict(op=op[0], x=pair(op[1] if len(op) > 1 else 0.0), ret=pair(o["ret"]),
                        trapped=pair(o["trapped"]), inside=o["inside"], levels=j_levels(o["wmk"]),
                        exact=1 if exact else 0, wret=pair(exact[0][k] if exact else 0.0),
                        wheld=pair(exact[1][k] if exact else 0.0)))
    return dict(id=str(ident), kind=s["mkind"], phase=j_phase(s["phase"]), dwell=pair(s["dwell"]), frac=pair(s["frac"]),
                traps=j_traps(s["traps"]), maxt=s["max_t"], ops=ops, rel=pair(rel), want=list(want))


def roe_scn(r, rows, express=0, offset=0):
    return dict(kind="roe", roe=r, rows=rows, express=express, offset=offset)


def j_roe_scn(s, res, ident):
    return dict(id=str(ident), roe=j_roe(s["roe"]), rows=s["rows"], express=s["express"], offset=s["offset"],
                passes=res["passes"], E=j_nums(res["E"]), store=res["store"], steps=res["steps"],
                nphases=res["nphases"],
                clock=[[dict(cap=c["cap"], rel=c["rel"], frac=j_nums(c["frac"])) for c in row] for row in res["clock"]])


def rel(name, scens, ins=(), n=(), m=(), x=(), tol=0.0, scale=None, note=""):
    return dict(rel=name, scens=list(scens), ins=list(ins), n=list(n), m=[list(p) for p in m], x=list(x), tol=tol,
                scale=scale, note=note)


def j_rel(c, ident):
    outs = c["outs"] if "outs" in c else [r["image"] for r in c["res"]]
    scale = c["scale"]
    if scale is None:
        scale = max([1.0] + [abs(v) for im in outs for row in im for v in row if math.isfinite(v)])
    return {"id": str(ident), "rel": c["rel"], "in": [j_image(im) for im in c["ins"]], "out": [j_image(im) for im in outs],
            "n": c["n"], "m": c["m"], "x": j_nums(c["x"]), "tol": pair(c["tol"]), "scale": pair(scale)}


# ---------------------------------------------------------------- functions (TraceUtil)
def vol(ph, ns):
    return dict(kind="vol", phase=ph, n=sorted(ns))


def exposed(va, vb, pairs, chain=None):
    """pairs of volumes (low, high); chain[k] = 1: pairs k, k+1 adjoin and k+2 is their union"""
    return dict(kind="trap", tkind="ic", traps=traps(ic=[(1.0, 1.0, va, vb)]), calls=[("ex", a, b) for a, b in pairs],
                util="exposed", chain=chain or [0] * len(pairs))


def decay(kind, tau, ts):
    t = traps(ic=[(1.0, tau)]) if kind == "ic" else traps(sc=[(1.0, tau, 0.5)])
    return dict(kind="trap", tkind=kind, traps=t, calls=[("ff", x) for x in ts], util="decay")


def curve(kind, mu, sig, tc, ts, te, tab=None, dwell=1.0):
    """ff at times ts (increasing), read back as times where te says so; tab = (tmin, tmax, n): the same with tables"""
    t = traps(icco=[(1.0, mu, sig)]) if kind == "icco" else traps(scco=[(1.0, mu, sig, tc)])
    c = [("ff", x) for x in ts] + [("tef", x, 4 * x + 1.0) for x, w in zip(ts, te) if w]
    if tab:
        c.append(("prep",) + tuple(tab))
        c += [("fft", x) for x in ts] + [("tetf", x) for x, w in zip(ts, te) if w]
    return dict(kind="trap", tkind=kind, traps=t, ts=list(ts), te=list(te), tab=tab, dwell=dwell, util="curve", calls=c)


def soak(mu, sig, tc, dwell, ts, tab=None):
    c = [("sc", t, dwell) for t in ts]
    if tab:
        c.append(("preps", dwell, tab[0], tab[1], tab[2]))
        c += [("sct", t) for t in ts]
    return dict(kind="trap", tkind="scco", traps=traps(scco=[(1.0, mu, sig, tc)]), calls=c, ts=list(ts), tab=tab,
                dwell=dwell, util="soak")


def j_util(s, res, ident):
    o = dict(id=str(ident))
    k = s["kind"]
    if k == "vol":
        o.update(kind="vol", phase=j_phase(s["phase"]), n=j_nums(s["n"]), v=j_nums(res["v"]))
    elif k == "trap" and s["util"] == "exposed":
        t = s["traps"]["ic"][0]
        o.update(kind="exposed", va=pair(t["va"]), vb=pair(t["vb"]), ab=[j_nums(c[1:]) for c in s["calls"]],
                 v=j_nums(res["v"]), chain=s["chain"])
    elif k == "trap" and s["util"] == "decay":
        o.update(kind="decay", tau=pair(s["traps"][s["tkind"]][0]["tau"]), t=j_nums([c[1] for c in s["calls"]]),
                 v=j_nums(res["v"]))
    elif k == "trap":
        t = s["traps"][s["tkind"]][0]
        tab = s["tab"] or (1e-3, 1e3, 1000)
        tc = t.get("tc", 0.0)
        c = dict(mu=pair(t["tau"]), sig=pair(t["sig"]), cr=pair(1.0 / tc if tc else 0.0), dt=pair(s["dwell"]), tmin=pair(tab[0]),
                 tmax=pair(tab[1]))
        n = len(s["ts"])
        o.update(kind=s["util"], c=c, t=j_nums(s["ts"]), tab=1 if s["tab"] else 0)
        z = [0.0] * n
        v = res["v"]
        if s["util"] == "curve":
            m = sum(1 for w in s["te"] if w)

            def back(l):
                it = iter(l)
                return [next(it) if w else -1.0 for w in s["te"]]
            o.update(ff=j_nums(v[:n]), te=j_nums(back(v[n:n + m])), ft=j_nums(v[n + m + 1:2 * n + m + 1] if s["tab"] else z),
                     tt=j_nums(back(v[2 * n + m + 1:]) if s["tab"] else [-1.0] * n))
        else:
            o.update(sf=j_nums(v[:n]), st=j_nums(v[n + 1:] if s["tab"] else z))
    elif k == "transpose":
        o.update(kind=k, im=j_image(s["image"]), t=j_image(res["t"]), tt=j_image(res["tt"]), input=j_image(res["input"]),
                 flat=j_nums(res["flat"]))
    elif k == "txt":
        o.update(kind=k, im=j_image(s["image"]), a=j_image(res["a"]), b=j_image(res["b"]))
    elif k == "print":
        o.update(j_printed(s["form"], s["cols"], s["image"], res["input"], res["text"]))
    elif k == "time":
        o.update(kind=k, t=j_nums([float(x) for x in s["t"]]), v=pair(res["v"]))
    return o


def j_load(s, taken, res, ident):
    return dict(id=str(ident), kind="load", there=s["there"], head=s["head"], rows=s["rows"], cols=s["cols"], values=j_nums(s["values"]),
                taken=taken, im=j_image(res["image"]) if taken else [])


def j_save(s, taken, res, ident):
    return dict(id=str(ident), kind="save", room=s["room"], taken=taken)


def j_setting(s, taken, res, ident):
    ds = []
    for d, n in ((s["P"], len(s["image"])), (s["S"], len(s["image"][0]))):
        if d:
            ds.append(dict(pumping=int(d["roe"]["type"] == 2), steps=len(d["roe"]["dwell"]), phases=len(d["ccd"]["phases"]),
                           shares=len(d["ccd"]["frac"]), first=d["w0"], last=n if d["w1"] == -1 else d["w1"], lines=n,
                           express=d["express"], offset=d["offset"], prescan=d["roe"]["prescan"], overscan=d["roe"]["overscan"],
                           pumps=d["roe"]["npumps"]))
    return dict(id=str(ident), kind="setting", directions=ds, taken=taken, same=int(bool(taken) and res["image"] == s["image"]))
