"""Configurations of the design models, shared between TLC (as JSON) and the real code (as scenarios)."""
import json
import math
from fractions import Fraction as F

from . import scn


def fr(x):
    x = F(x)
    return [x.numerator, x.denominator]


def ph(fw=8, notch=0, beta=1, fef=0):
    return dict(fw=fr(fw), notch=fr(notch), beta=fr(beta), fef=fr(fef))


def ic(d, q, va=0, vb=0):
    return dict(d=fr(d), q=fr(q), va=fr(va), vb=fr(vb))


def sc(d, q, k):
    return dict(d=fr(d), q=fr(q), k=k)


def co(d, T, Fs, A=None):
    return dict(d=fr(d), T=[fr(x) for x in T], F=[fr(x) for x in Fs], A=[fr(x) for x in (A or Fs)])


CLOUDS = [0, F(1, 2), 2, 5, 9]


def manager(kind, species, phase=None, clouds=CLOUDS, prunes=(F(1, 4), F(-1, 8))):
    uniform = kind != "ic" or all(s["vb"][0] == 0 for s in species)
    return dict(kind=kind, sp=species, ph=phase or ph(), clouds=[fr(c) for c in clouds],
                prunes=[fr(p) for p in prunes] if uniform else [])


CURVE1 = dict(T=[0, 1, 2, 4, 8], Fs=[1, F(1, 2), F(3, 10), F(1, 10), 0])
CURVE2 = dict(T=[0, 1, 3, 6], Fs=[1, F(3, 4), F(1, 4), 0])


def capture(c, gain):
    """occupancy after a dwell in a cloud: the fraction `gain` of the way to full"""
    return [f + (1 - f) * F(gain) for f in map(F, c["Fs"])]


def trap_managers(kinds=("ic", "sc", "icco", "scco")):
    m = []
    if "ic" in kinds:
        m += [manager("ic", [ic(3, F(1, 2))]),
              manager("ic", [ic(1, F(1, 4)), ic(2, F(3, 4))], ph(10, 1, 2)),
              manager("ic", [ic(6, F(1, 3))], ph(8, 0, 1, F(1, 16))),
              manager("ic", [ic(20, F(1, 2)), ic(5, F(9, 10))])]
    if "surface" in kinds:
        m += [manager("ic", [ic(3, F(1, 2), F(1, 4), F(1, 2))]),
              manager("ic", [ic(2, F(1, 2), 0, F(3, 4)), ic(2, F(1, 4))]),
              manager("ic", [ic(8, F(3, 4), F(1, 2), F(1, 2))], ph(10, 1, 1))]
    if "sc" in kinds:
        m += [manager("sc", [sc(3, F(1, 2), 1)]),
              manager("sc", [sc(1, F(1, 4), 0), sc(2, F(3, 4), 3)], ph(10, 1, 2)),
              manager("sc", [sc(25, F(1, 2), 2)]),
              manager("sc", [sc(6, F(1, 3), 1)], ph(8, 0, 1, F(1, 16)))]
    if "icco" in kinds:
        m += [manager("icco", [co(3, **CURVE1)]),
              manager("icco", [co(1, **CURVE1), co(12, **CURVE2)], ph(10, 1, 2))]
    if "scco" in kinds:
        m += [manager("scco", [co(3, A=capture(CURVE1, F(1, 2)), **CURVE1)]),
              manager("scco", [co(14, A=capture(CURVE1, F(1, 4)), **CURVE1), co(2, A=capture(CURVE2, 1), **CURVE2)],
                      ph(10, 1, 2))]
    return m


def num(x):
    return x[0] / x[1]


def scenario(m, ops, dwell=1.0):
    """history printed by MC_Traps ("t1 s p2 ...") -> scenario of the harness, with physical parameters"""
    p = {k: num(v) for k, v in m["ph"].items()}
    t = {}
    sp = m["sp"]
    if m["kind"] == "ic":
        t["ic"] = [(num(s["d"]), -dwell / math.log(num(s["q"])), num(s["va"]), num(s["vb"])) for s in sp]
    elif m["kind"] == "sc":
        t["sc"] = [(num(s["d"]), -dwell / math.log(num(s["q"])),
                    0.0 if s["k"] == 0 else -dwell / math.log(num(s["q"])) / s["k"]) for s in sp]
    elif m["kind"] == "icco":
        t["icco"] = [(num(s["d"]), 0.8 + 0.9 * i, 0.4 + 0.2 * i) for i, s in enumerate(sp)]
    else:
        t["scco"] = [(num(s["d"]), 0.8 + 0.9 * i, 0.4 + 0.2 * i, 0.7 if i == 0 else 0.0) for i, s in enumerate(sp)]
    o = []
    for w in ops.split():
        if w[0] == "t":
            o.append(("t", num(m["clouds"][int(w[1:]) - 1])))
        elif w[0] == "p":
            o.append(("p", num(m["prunes"][int(w[1:].rstrip("~")) - 1])))
        else:
            o.append((w,))
    return scn.mgr(m["kind"], scn.traps(**t), o, p, dwell=dwell)


def wants(text):
    """the exact values printed by the model -> floats"""
    return [float(F(x)) for x in text.split()]


def dump(path, obj):
    with open(path, "w") as f:
        json.dump(obj, f)


def roe_configs(c):
    """the settings MC_Roe enumerates for ranges c -> scenarios of the harness"""
    out = []
    import itertools
    for t, n, ps, os_, e, f, m, p in itertools.product(*(c[k] for k in ("type", "phases", "prescan", "overscan", "eft",
                                                                        "fra", "intm", "npumps"))):
        if t == 1 and e or t == 2 and (ps or os_ != -1) or t != 2 and p != 1:
            continue
        r = scn.roe(type=t, dwell=[1.0] * (2 * n if t == 2 else n), prescan=ps, overscan=os_, eft=e,
                    fra=0 if t == 2 else f, intm=m, npumps=p)
        for rows, ex, off in itertools.product(c["rows"], c["express"], c["offset"]):
            if t == 2 and off:
                continue
            out.append(scn.roe_scn(r, rows, ex, off))
    return out


ROE_STD = dict(type=[0], phases=[1], rows=[1, 2, 3, 4, 5], prescan=[0, 1, 2], overscan=[-1, 1, 2, 3, 5], offset=[0, 1, 3],
               express=[0, 1, 2, 3, 4, 5, 7], eft=[0, 1], fra=[1], intm=[0, 1], npumps=[1])
ROE_INJ = dict(ROE_STD, type=[1], eft=[0], rows=[1, 2, 3, 4, 5, 6], overscan=[-1, 1, 2, 3, 4, 6])
ROE_PUMP = dict(type=[2], phases=[1], rows=[1], prescan=[0], overscan=[-1], offset=[0], express=list(range(0, 12)),
                eft=[0, 1], fra=[0], intm=[0, 1], npumps=list(range(1, 11)))
ROE_CLOCK = dict(type=[0, 1, 2], phases=list(range(1, 13)), rows=[2], prescan=[0], overscan=[-1], offset=[0], express=[0],
                 eft=[0], fra=[0, 1], intm=[0], npumps=[1])


# ---------------------------------------------------------------- MC_Clock
def q_roe(**kw):
    """dwell times are whole units"""
    r = scn.roe(**kw)
    if r["type"] == 2:
        r["fra"] = 0
    r["dwell"] = [fr(x) for x in r["dwell"]]
    return r


def q_ic(d, q, va=0, vb=0):
    return dict(d=fr(d), q=fr(q), va=fr(va), vb=fr(vb))


def q_sc(d, q, k):
    return dict(d=fr(d), q=fr(q), k=k)


def q_dir(roe=None, phases=None, frac=None, ic=(), sc=(), icco=(), scco=(), express=0, offset=0, w0=0, w1=-1, prune_n=0,
          prune_f=0):
    phases = phases or [ph()]
    return dict(roe=roe or q_roe(dwell=[1]), ccd=dict(phases=phases, frac=[fr(f) for f in (frac or [F(1, len(phases))] * len(phases))]),
                traps=dict(ic=list(ic), sc=list(sc), icco=list(icco), scco=list(scco)), express=express, offset=offset, w0=w0,
                w1=w1, prune_n=fr(prune_n), prune_f=prune_f)


def q_setting(P=None, S=None, mode=1, iters=1, neg=1):
    return dict(image=[], mode=mode, iters=iters, neg=neg, hasP=int(P is not None), hasS=int(S is not None), P=P or 0, S=S or 0, c0=0, c1=-1,
                pw=[P["w0"], P["w1"]] if P else [0, -1], sw=[S["w0"], S["w1"]] if S else [0, -1])


def s_dir(d):
    """the direction of the model with physical parameters"""
    if not d:
        return None
    t = {}
    t["ic"] = [(num(s["d"]), -1 / math.log(num(s["q"])), num(s["va"]), num(s["vb"])) for s in d["traps"]["ic"]]
    t["sc"] = [(num(s["d"]), -1 / math.log(num(s["q"])), 0.0 if s["k"] == 0 else -1 / math.log(num(s["q"])) / s["k"])
               for s in d["traps"]["sc"]]
    r = dict(d["roe"], dwell=[num(x) for x in d["roe"]["dwell"]])
    c = scn.ccd([{k: num(v) for k, v in p.items()} for p in d["ccd"]["phases"]], [num(f) for f in d["ccd"]["frac"]])
    return scn.dirn(r, c, scn.traps(**t), d["express"], d["offset"], d["w0"], d["w1"], num(d["prune_n"]), d["prune_f"])


def s_setting(x, image):
    """scenario of the harness; None if the setting has curves that are not those of physical species"""
    for k in ("P", "S"):
        if x[k] and (x[k]["traps"]["icco"] or x[k]["traps"]["scco"]):
            return None
    return scn.img([[num(v) for v in row] for row in image], s_dir(x["P"]), s_dir(x["S"]), mode=x["mode"], iters=x["iters"],
                   neg=x["neg"])


def q_images(rows, cols, alphabet, rng=None, n=None):
    import itertools
    out = []
    total = len(alphabet) ** (rows * cols)
    if n is None or n >= total:
        for v in itertools.product(alphabet, repeat=rows * cols):
            out.append([[fr(v[i * cols + j]) for j in range(cols)] for i in range(rows)])
    else:
        for _ in range(n):
            out.append([[fr(rng.choice(alphabet)) for _ in range(cols)] for _ in range(rows)])
    return out


A4 = [0, F(1, 2), 3, 9]
A3 = [0, 2, 9]


def clock_settings(which, deep=False):
    """settings of MC_Clock, with the shapes and alphabets of their images: [(setting, rows, cols, alphabet)]"""
    ic1 = [q_ic(3, F(1, 2))]
    ic2 = [q_ic(1, F(1, 4)), q_ic(4, F(3, 4))]
    sf = [q_ic(3, F(1, 2), F(1, 4), F(1, 2))]
    sc1 = [q_sc(3, F(1, 2), 1)]
    big = [q_ic(30, F(1, 2))]
    cc = [co(3, **CURVE1)]
    out = []

    def add(s, rows, cols, al):
        out.append((s, rows, cols, al))
    E = q_roe
    if which in ("image", "all"):
        add(q_setting(q_dir(ic=ic1)), 3, 1, A4)
        add(q_setting(q_dir(ic=ic1, sc=sc1)), 3, 1, A3)
        add(q_setting(q_dir(sc=[q_sc(2, F(1, 4), 0), q_sc(3, F(1, 2), 2)])), 3, 1, A4)
        add(q_setting(q_dir(ic=big, phases=[ph(8, 1, 2)])), 3, 1, A4)
        add(q_setting(q_dir(ic=ic2, express=1)), 3, 1, A4)
        add(q_setting(q_dir(ic=ic2, express=2)), 3, 1, A4)
        add(q_setting(q_dir(E(dwell=[1], eft=1), ic=ic2, express=2)), 3, 1, A4)
        add(q_setting(q_dir(E(dwell=[1], intm=1), sc=sc1, express=2)), 3, 1, A3)
        add(q_setting(q_dir(icco=cc, express=2)), 3, 1, A3)
        add(q_setting(q_dir(scco=[co(3, A=capture(CURVE1, F(1, 2)), **CURVE1)])), 3, 1, A3)
    if which in ("phases", "all"):
        add(q_setting(q_dir(E(dwell=[1, 1, 1]), phases=[ph()] * 3, ic=ic1)), 2, 1, A4)
        add(q_setting(q_dir(E(dwell=[1, 1, 1], fra=0), phases=[ph(8), ph(10, 1), ph(6)], frac=[F(1, 2), F(1, 3), F(1, 6)], ic=ic2)), 2, 1, A4)
        add(q_setting(q_dir(E(dwell=[1, 1], fra=0), phases=[ph()] * 2, sc=sc1)), 2, 1, A4)
        add(q_setting(q_dir(E(dwell=[1, 1, 1, 1]), phases=[ph()] * 4, ic=ic1, sc=sc1)), 2, 1, A3)
        add(q_setting(q_dir(E(type=2, dwell=[1] * 6, npumps=3), phases=[ph()] * 3, ic=ic1, w0=1, w1=2, express=2)), 3, 1, A3)
        add(q_setting(q_dir(E(type=1, dwell=[1], overscan=3), ic=ic1, express=2)), 3, 1, A4)
    if which in ("columns", "all"):
        add(q_setting(q_dir(ic=ic2)), 2, 2, A4)
        add(q_setting(q_dir(E(dwell=[1], ebc=0), ic=ic2)), 2, 2, A4)
        add(q_setting(q_dir(E(dwell=[1], ebc=0), sc=sc1, express=1)), 2, 3, A3[:2])
        add(q_setting(q_dir(E(dwell=[1], ebc=0, eft=1), ic=ic1)), 2, 2, A3)
    if which in ("both", "all"):
        add(q_setting(q_dir(ic=ic1, express=1), q_dir(sc=sc1)), 2, 2, A3)
        add(q_setting(None, q_dir(ic=ic2, offset=1)), 2, 2, A3)
        add(q_setting(q_dir(ic=ic1, w0=1), q_dir(E(dwell=[1], prescan=1), ic=sf, w0=0, w1=1)), 2, 2, A3)
    if which in ("window", "all"):
        add(q_setting(q_dir(ic=ic2, w0=1, w1=3)), 3, 1, A4)
        add(q_setting(q_dir(ic=ic2, offset=2)), 2, 1, A4)
        add(q_setting(q_dir(E(dwell=[1], prescan=1, overscan=3), ic=ic1, offset=1, express=2)), 3, 1, A4)
        add(q_setting(q_dir(E(dwell=[1], eft=1), ic=ic1, offset=1, express=2)), 2, 1, A4)
        add(q_setting(q_dir(E(dwell=[1], overscan=2), sc=sc1, express=0)), 3, 1, A4)
    if which in ("remove", "all"):
        add(q_setting(q_dir(ic=ic1), mode=2, iters=2), 2, 1, A4)
        add(q_setting(q_dir(ic=ic2, express=1), q_dir(ic=ic1), mode=2, iters=2, neg=0), 2, 2, A3[:2] + [F(1, 4)])
        add(q_setting(q_dir(sc=sc1), mode=2, iters=3, neg=0), 2, 1, A4)
    if which in ("clamp", "all"):
        add(q_setting(q_dir(ic=ic1, express=1), neg=0), 3, 1, A4)
        add(q_setting(q_dir(sc=[q_sc(6, F(1, 2), 0)], express=1), neg=0), 3, 1, A4)
        add(q_setting(q_dir(E(dwell=[1, 1], fra=0), phases=[ph()] * 2, ic=big, express=1), neg=0), 2, 1, A4)
    if which in ("mixing", "all"):
        for d in (q_dir(ic=ic2 + sf), q_dir(sc=sc1 + [q_sc(1, F(1, 4), 0)]), q_dir(ic=ic2, sc=sc1), q_dir(icco=cc, ic=ic1),
                  q_dir(scco=[co(3, A=capture(CURVE1, F(1, 2)), **CURVE1)], sc=[q_sc(30, F(1, 2), 2)])):
            add(dict(q_setting(d), mix=1), 2, 1, A4)
    if which in ("prune", "all"):
        add(q_setting(q_dir(ic=ic2, prune_n=F(1, 2), prune_f=1)), 3, 1, A4)
        add(q_setting(q_dir(sc=sc1, prune_n=F(1, 4), prune_f=2)), 3, 1, A3)
    return out


def clock_conf(settings, rng, n=None):
    return dict(settings=[s for s, *_ in settings], images=[q_images(r, c, a, rng, n) for _, r, c, a in settings])
