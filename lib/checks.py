"""One function per property: what it has the specification decide.  Everything is chosen by c.rng."""
import concurrent.futures as cf
import math

from . import gen, impl, models, pychecks, scn
from .gen import pick


def more(c, n):
    """sizes grow in thorough runs"""
    return n * (8 if c.thorough else 1)


def histories(c, n, want, kinds=("ic", "sc", "icco", "scco"), **kw):
    s = []
    for k in kinds:
        m = n if k in ("ic", "sc") else n // 4
        s += [gen.manager(c.rng, k, **kw) for _ in range(m)]
    c.managers(s, want)


def images(c, make, total, each=None, **kw):
    c.images(gen.batch(c.rng, make, more(c, total), each or 100e3), **kw)


def talls(c, n, most=1500, judge=None, **kw):
    c.images([gen.tall(c.rng, most * (2 if c.thorough else 1), **kw) for _ in range(more(c, n))], judge=judge)


def wides(c, n, judge=None, **kw):
    c.images([gen.wide(c.rng, 3000 if c.thorough else 1200, **kw) for _ in range(more(c, n))], judge=judge)


def reals(c, n, judge=None, **kw):
    c.images([gen.real(c.rng, 9000 if c.thorough else 3500, **kw) for _ in range(more(c, n))], judge=judge)


# ---------------------------------------------------------------- traps
def T01(c):
    c.trap_model(("ic", "sc", "icco", "scco", "surface"), 4 if c.thorough else 3, ("conserve", "count"))
    histories(c, more(c, 900), ("conserve", "count"))
    histories(c, more(c, 150), ("conserve", "count"), nops=40)
    histories(c, more(c, 400), ("conserve", "count"), lean=True, tide=True, prune=False)
    histories(c, more(c, 150), ("conserve", "count"), fef=True, prune=False)


def T02(c):
    c.trap_model(("ic", "sc", "icco", "scco", "surface"), 4 if c.thorough else 3, ("bounds", "state"))
    histories(c, more(c, 900), ("bounds", "state"))
    histories(c, more(c, 150), ("bounds", "state"), nops=40)
    histories(c, more(c, 400), ("bounds", "state"), lean=True, tide=True)
    c.clock_model("image", 12)


SAME = ("returned", "profile", "exact")


def T03(c):
    c.trap_model(("ic",), 5 if c.thorough else 4, SAME, per=more(c, 6000))
    histories(c, more(c, 1800), SAME, ("ic",), surface=False, prune=False)
    histories(c, more(c, 150), SAME, ("ic",), surface=False, prune=False, nops=60)
    histories(c, more(c, 500), SAME, ("ic",), surface=False, prune=False, lean=True, tide=True)
    histories(c, more(c, 300), SAME, ("ic",), surface=False, prune=False, fef=True)
    c.utils([scn.decay("ic", c.rng.uniform(0.05, 20), times(c)) for _ in range(more(c, 40))])


def T04(c):
    c.trap_model(("sc",), 5 if c.thorough else 4, SAME, per=more(c, 6000))
    histories(c, more(c, 1800), SAME, ("sc",), prune=False)
    histories(c, more(c, 150), SAME, ("sc",), prune=False, nops=60)
    histories(c, more(c, 500), SAME, ("sc",), prune=False, lean=True, tide=True)
    histories(c, more(c, 300), SAME, ("sc",), prune=False, fef=True)
    c.utils([scn.decay("sc", c.rng.uniform(0.05, 20), times(c)) for _ in range(more(c, 40))])


def times(c):
    return [0.0] + sorted(10 ** c.rng.uniform(-3, 2) for _ in range(10))


def curve_times(c, mu, n=10):
    return [0.0] + sorted(mu * 10 ** c.rng.uniform(-2, 2) for _ in range(n))


def T05(c):
    r = c.rng
    c.trap_model(("icco", "scco"), 5 if c.thorough else 4, SAME, per=more(c, 3000))
    histories(c, more(c, 1600), SAME, ("icco", "scco"), prune=False)
    histories(c, more(c, 160), SAME, ("icco", "scco"), prune=False, nops=50)
    histories(c, more(c, 300), SAME, ("icco", "scco"), prune=False, lean=True, tide=True)
    s = []
    for k in ("icco", "scco"):
        for _ in range(more(c, 30)):
            mu, sig = 10 ** r.uniform(-0.5, 1), pick(r, 0.01, 0.02, 0.1, round(r.uniform(0.1, 1.5), 2))
            ts = curve_times(c, mu)
            tab = pick(r, None, (mu / 1000, mu * 1000, 1000))
            s.append(scn.curve(k, mu, sig, 0.3, ts, [0.1 * mu < t < 8 * mu for t in ts], tab))
    for _ in range(more(c, 30)):
        mu, sig = 10 ** r.uniform(-0.5, 1), pick(r, 0.01, 0.1, round(r.uniform(0.1, 1.5), 2))
        s.append(scn.soak(mu, sig, pick(r, 0.0, 0.1, 1.0, 3.0), r.uniform(0.1, 2), curve_times(c, mu),
                          pick(r, None, (mu / 1000, mu * 1000, 1000))))
    c.utils(s)
    # a narrow distribution is a single timescale: images of both
    cases = []
    for k in ("ic", "sc"):
        for _ in range(more(c, 12)):
            rows = r.randint(2, 5)
            d, tau, tc = r.uniform(1, 20), r.uniform(0.5, 4), pick(r, 0.0, 0.3)
            one = scn.dirn(traps_=scn.traps(**({"ic": [(d, tau)]} if k == "ic" else {"sc": [(d, tau, tc)]})))
            two = scn.dirn(traps_=scn.traps(**({"icco": [(d, tau, 0.002)]} if k == "ic" else {"scco": [(d, tau, 0.002, tc)]})))
            im = gen.image(r, rows, 1)
            cases.append(scn.rel("close", [scn.img(im, one), scn.img(im, two)], tol=2e-4, scale=40.0,
                                 note="narrow distribution"))
    c.relations(cases)
    images(c, lambda: gen.any_image(r, 4, 2, kinds=[pick(r, "icco", "scco")]), 100e3)


def surface_pairs(c, va, vb):
    r, P, C = c.rng, [], []
    for _ in range(6):
        x = sorted(r.random() for _ in range(3))
        x[r.randrange(3)] = pick(r, va, vb, 0.0, 1.0)
        x.sort()
        P += [(x[0], x[1]), (x[1], x[2]), (x[0], x[2])]
        C += [1, 0, 0]
    P += [(x[1], x[1]), (x[0], x[0]), (va, va), (vb, vb), (0.0, 0.0), (1.0, 1.0), (0.0, 1.0)]
    return P, C + [0] * 7


def surface_depths(r):
    va = pick(r, 0.0, 0.0, round(r.uniform(0, 0.5), 3))
    vb = pick(r, va, round(r.uniform(max(va, 0.05), 0.95), 3))
    return (0.0, 0.0) if vb == 0 else (va, vb)


def T06(c):
    r = c.rng
    c.trap_model(("surface",), 5 if c.thorough else 4, SAME + ("conserve", "bounds"), per=more(c, 5000))
    s = []
    for _ in range(more(c, 1500)):
        m = gen.manager(r, "ic", prune=False)
        if not any(t["vb"] > 0 for t in m["traps"]["ic"]):
            m["traps"]["ic"][0]["va"], m["traps"]["ic"][0]["vb"] = surface_depths(r)
        s.append(m)
    for _ in range(more(c, 200)):      # the same cloud again and again
        va, vb = surface_depths(r)
        ph = gen.phase(r)
        n = r.uniform(0, ph["fw"])
        ops = [("t", n)] * r.randint(20, 60)
        if r.random() < 0.5:
            ops = [("t", r.uniform(0, ph["fw"]))] + ops + [("t", n * 0.7)] * 10
        s.append(scn.mgr("ic", scn.traps(ic=[(10 ** r.uniform(0, 3), r.uniform(0.2, 5), va, vb)]), ops, ph))
    c.managers(s, SAME + ("conserve", "bounds", "count"))
    u = []
    for _ in range(more(c, 150)):
        va, vb = surface_depths(r)
        P, C = surface_pairs(c, va, vb)
        u.append(scn.exposed(va, vb, P, C))
    c.utils(u)
    # a cloud that fills the pixel takes exactly the stated density; flat fields stay finite
    cases = []
    for _ in range(more(c, 30)):
        va, vb = surface_depths(r)
        d = r.uniform(1, 200)
        one = scn.dirn(traps_=scn.traps(ic=[(d, r.uniform(0.2, 5), va, vb)]))
        cases.append(scn.rel("expected", [scn.img([[2e5]], one)], ins=[[[2e5 - d]]], tol=1e-9, scale=1.0, note="whole pixel"))
    for _ in range(more(c, 15)):
        va, vb = surface_depths(r)
        d = scn.dirn(scn.roe(intm=pick(r, 0, 1)), scn.ccd([gen.phase(r)]),
                     scn.traps(ic=[(10 ** r.uniform(0, 3), r.uniform(0.2, 5), va, vb)]), express=pick(r, 0, 1, 2))
        x = 10 ** r.uniform(0, 4.5)
        flat = [[x] * 2 for _ in range(r.randint(10, 40))]
        cases.append(scn.rel("finite", [scn.img(flat, d)], ins=[flat], note="flat field"))
    c.relations(cases)


def T07(c):
    r = c.rng
    c.trap_model(("ic", "sc", "icco", "scco", "surface"), 4 if c.thorough else 3, ("prune", "bounds", "conserve"))
    s = []
    for _ in range(more(c, 1500)):
        k = pick(r, "ic", "ic", "sc", "sc", "icco", "scco")
        m = gen.manager(r, k, nops=r.randint(3, 14), surface=False)
        if not any(o[0] == "p" for o in m["ops"]):
            total = sum(t["d"] for t in m["traps"][k])
            m["ops"].insert(r.randint(1, len(m["ops"])), ("p", pick(r, 1e-10, 0.05, 1.0, total / 20, -0.05, -total / 30)))
        s.append(m)
    c.managers(s, ("prune", "bounds", "conserve", "returned", "profile", "count"))
    c.clock_model("prune", 20)
    images(c, lambda: gen.any_image(r, 7, 2, prune=True), 600e3)
    talls(c, 8, prune=True)
    cases = []
    for _ in range(more(c, 30)):
        s1 = gen.any_image(r, 8, 2, mode=1, both=0, rtype=0, express=0, nph=1)
        s1["P"]["prune_f"], s1["P"]["prune_n"] = 0, 1e-10
        s2 = scn.clone(s1)
        s2["P"]["prune_f"], s2["P"]["prune_n"] = pick(r, 1, 2, 3), pick(r, 1e-8, 1e-10)
        n = len(s1["image"]) * (len(s1["image"]) + s1["P"]["offset"] + s1["P"]["roe"]["prescan"] + 1)
        n *= len(s1["image"][0]) * sum(len(s1["P"]["traps"][k]) for k in s1["P"]["traps"]) * 4
        cases.append(scn.rel("within", [s1, s2], x=[n * max(1e-8, 1e-9)], note="tiny threshold"))
    c.relations(cases)


def T08(c):
    r = c.rng
    cases = []
    for _ in range(more(c, 60)):
        s1 = gen.any_image(r, 4, 2, mode=1, both=pick(r, 0, 0, 2))
        for how in ("permute", "split", "zero", "null"):
            s2 = scn.clone(s1)
            d = s2["P"] or s2["S"]
            t = d["traps"]
            if how == "permute":
                for k in t:
                    r.shuffle(t[k])
            elif how == "split":
                for k in t:
                    if t[k]:
                        x = t[k].pop(r.randrange(len(t[k])))
                        f = pick(r, 0.5, round(r.uniform(0.05, 0.95), 2))
                        t[k] += [dict(x, d=x["d"] * f), dict(x, d=x["d"] * (1 - f))]
            elif how == "zero":
                for k in t:
                    if t[k]:
                        t[k].insert(r.randrange(len(t[k]) + 1), dict(pick(r, *t[k]), d=0.0, tau=round(r.uniform(0.3, 5), 2)))
            else:
                d["null_empty"] = 1 - d["null_empty"]
            cases.append(scn.rel("close", [s1, s2], tol=1e-8, note=how))
    c.relations(cases)
    images(c, lambda: gen.any_image(r, 4, 2, kinds=r.sample(["ic", "sc", "icco", "scco"], pick(r, 2, 2, 3, 4)), zero=True), 500e3)
    histories(c, more(c, 300), SAME + ("conserve",), zero=True)
    c.clock_model("mixing", 20)


# ---------------------------------------------------------------- wells, readout
def W01(c):
    r = c.rng
    s = []
    for _ in range(more(c, 400)):
        p = gen.phase(r, True)
        if r.random() < 0.5:
            p = scn.phase(10 ** r.uniform(1, 6), pick(r, 0.0, 10 ** r.uniform(-1, 3)), 10 ** r.uniform(-1, 0.7), p["fef"])
            if p["notch"] >= p["fw"]:
                p["notch"] = p["fw"] / 2
        ns = [r.uniform(-100, 1.2 * p["fw"]) for _ in range(20)] + [10 ** r.uniform(-6, 6) for _ in range(5)]
        ns += [0.0, 1.0, p["notch"], p["fw"], p["notch"] + p["fw"], math.nextafter(p["notch"], 1e9), math.nextafter(p["fw"], 0.0),
               math.nextafter(p["fw"], 1e9), -1e9, 1e12]
        s.append(scn.vol(p, ns))
    c.utils(s)
    pychecks.volumes(c, s)


def R01(c):
    c.roe_model(models.ROE_STD, ("total", "matrix"))
    if c.thorough:
        c.roe_model(dict(models.ROE_STD, rows=list(range(1, 9)), prescan=[0, 1, 2, 4], overscan=[-1, 1, 2, 3, 5, 7, 9, 12],
                         offset=[0, 1, 2, 3, 6], express=list(range(0, 12))), ("total", "matrix"))
    c.roes([random_roe(c, 0) for _ in range(more(c, 400))] + [long_roe(c) for _ in range(more(c, 16))] +
           [detector_roe(c, 0) for _ in range(more(c, 16))], ("total", "matrix"))


def long_roe(c):
    """long columns and many passes, whose multipliers come in small fractions"""
    r = c.rng
    rows = r.randint(100, 180)
    return scn.roe_scn(scn.roe(prescan=pick(r, 0, 0, r.randint(1, 30)), overscan=pick(r, -1, -1, r.randint(1, 190)), eft=pick(r, 1, 1, 0),
                               intm=pick(r, 0, 0, 0, 1)), rows, pick(r, rows - 1, rows // 2 + 1, r.randint(60, rows), r.randint(100, rows)),
                       pick(r, 0, 0, r.randint(1, 20)))


def detector_roe(c, t):
    """as long as detectors are: hundreds of rows, thousands of transfers, few passes"""
    r = c.rng
    rows = 1 if t == 2 else r.randint(150, 700)
    return scn.roe_scn(scn.roe(type=t, dwell=[0.5, 0.5] if t == 2 else [1.0], fra=0 if t == 2 else pick(r, 0, 1),
                               prescan=0 if t == 2 else pick(r, 0, 24, r.randint(1, 300)),
                               overscan=-1 if t == 2 else pick(r, -1, -1, r.randint(1, rows + 100), r.randint(1, 3000)), eft=0,
                               npumps=r.randint(200, 5000) if t == 2 else 1, intm=pick(r, 0, 0, 1)),
                       rows, pick(r, 1, 2, 3, 5, 7), 0 if t == 2 else pick(r, 0, 1000, r.randint(1, 4000)))


def random_roe(c, t):
    r = c.rng
    rr, _ = gen.roe_ccd(r, t, 1)
    rows = r.randint(1, 60)
    if t != 2:
        rr["prescan"] = pick(r, 0, 0, r.randint(0, 30))
        rr["overscan"] = pick(r, -1, -1, r.randint(1, 70))
    rr["npumps"] = r.randint(1, 80) if t == 2 else 1
    return scn.roe_scn(rr, rows, pick(r, 0, 1, 2, 3, r.randint(1, 80)), 0 if t == 2 else pick(r, 0, 0, r.randint(0, 40)))


def R02(c):
    c.roe_model(models.ROE_STD, ("matrix", "store"))
    c.roes([random_roe(c, 0) for _ in range(more(c, 400))] + [long_roe(c) for _ in range(more(c, 16))] +
           [detector_roe(c, 0) for _ in range(more(c, 16))], ("matrix", "store"))
    # what the schedule does to an image: passes and traps
    r = c.rng

    def make():
        s = gen.any_image(r, 6, 2, mode=1, both=0, rtype=0, nph=1, kinds=[pick(r, "ic", "sc")])
        s["P"]["express"] = pick(r, 2, 3, 4, 0)
        s["P"]["roe"]["eft"] = pick(r, 0, 1)
        return s
    images(c, make, 800e3)
    c.clock_model("image", 12)


def R03(c):
    r = c.rng
    c.roe_model(models.ROE_INJ, ("total", "matrix", "store"))
    c.roe_model(models.ROE_PUMP, ("total", "matrix", "store"))
    c.roes([random_roe(c, pick(r, 1, 2)) for _ in range(more(c, 400))] + [detector_roe(c, pick(r, 1, 2)) for _ in range(more(c, 16))],
           ("total", "matrix", "store"))
    images(c, lambda: gen.any_image(r, 5, 2, mode=1, both=0, rtype=pick(r, 1, 2), kinds=[pick(r, "ic", "sc")]), 800e3)


def R04(c):
    c.roe_model(models.ROE_CLOCK, ("clock",))
    r = c.rng
    c.roes([scn.roe_scn(scn.roe(type=t, dwell=[r.uniform(0.1, 2) for _ in range(n * (2 if t == 2 else 1))],
                                fra=0 if t == 2 else f), 2)
            for t in (0, 1, 2) for f in (0, 1) for n in list(range(1, 25)) if not (t == 2 and f)], ("clock",))


# ---------------------------------------------------------------- clocking
def C01(c):
    r = c.rng
    c.clock_model("image", 40 if c.thorough else 16)
    c.clock_model("phases", 40 if c.thorough else 16)
    images(c, lambda: gen.any_image(r, 7, 3, mode=pick(r, 0, 1), both=0), 1200e3)
    images(c, lambda: gen.any_image(r, 4, 2, mode=1, both=0, nph=pick(r, 2, 3, 4, 5)), 600e3)
    talls(c, 16, most=2500)
    wides(c, 12)
    reals(c, 16)
    dwell_finding(c)


def dwell_finding(c):
    """documented: the readout waits dwell[s] in step s.  The code gives phase p the dwell time dwell[p] throughout"""
    d = scn.dirn(scn.roe(dwell=[0.2, 0.8], fra=0), scn.ccd([scn.phase()] * 2, [0.5, 0.5]), scn.traps(ic=[(10.0, 1.0)]))
    s = scn.img([[1000.0], [0.0], [0.0]], d)
    res = c.run([s])
    if res[0]["outcome"] != "ok":
        return
    rec = scn.j_img(s, res[0]["image"], 0)
    rec["P"]["bystep"] = 1
    if c.verdicts("TraceImage", [rec])["0"].startswith("reject"):
        c.known_finding("dwell-by-phase", "dwell times that differ between steps: traps of phase p dwell dwell_times[p] in every step, "
                        "not dwell_times[step] as documented (two phases, dwell times 0.2 and 0.8)")


def C02(c):
    r = c.rng
    total = lambda t: "total" in t
    c.clock_model("image", 16)
    images(c, lambda: gen.any_image(r, 7, 3), 1200e3, judge=total)
    images(c, lambda: gen.any_image(r, 5, 2, mode=1, express=0), 600e3, judge=total)
    talls(c, 8, judge=total)
    reals(c, 8, judge=total)
    # with a long empty tail and short release times all the charge is in the image at the end
    cases = []
    for _ in range(more(c, 40)):
        rows = r.randint(3, 6)
        t = gen.traps(r, [pick(r, "ic", "sc", "ic")], surface=True, tau=(0.02, 0.07))
        d = scn.dirn(scn.roe(type=1, dwell=[1.0], overscan=r.randint(2, 5), intm=pick(r, 0, 1)), scn.ccd([scn.phase(pick(r, 2000.0, 1e4, 84700.0))]), t)
        im = [[r.uniform(300, 5000) for _ in range(3)]]
        im = [[0.0] * 3 for _ in range(r.randint(0, 2))] + im + [[0.0] * 3 for _ in range(24)]
        cases.append(scn.rel("total", [scn.img(im, d)], ins=[im], tol=1e-7, note="empty tail"))
    c.relations(cases)


def flip(im):
    return [list(x) for x in zip(*im)]


def C03(c):
    r = c.rng
    c.clock_model("both", 60 if c.thorough else 30)
    images(c, lambda: gen.any_image(r, 5, 5, mode=pick(r, 1, 1, 2), both=pick(r, 1, 1, 2)), 900e3)

    def pruned():
        s = gen.any_image(r, 6, 6, mode=1, both=1, rtype=pick(r, 0, 1), prune=True)
        for d in (s["P"], s["S"]):
            if d:
                d["prune_n"] = pick(r, 1e-3, 0.5, 5.0, -0.3, -3.0)
                d["prune_f"] = pick(r, 0, 1, 1, 2, 3)
        return s
    images(c, pruned, 600e3)
    reals(c, 8, both=True)
    cases = []
    for _ in range(more(c, 40)):
        s = pruned() if r.random() < 0.4 else gen.any_image(r, 5, 5, mode=1, both=1, rtype=pick(r, 0, 1))
        P, S = s["P"], s["S"]
        a = scn.clone(s)
        a["S"] = None

        def second(res, s=s, S=S):
            # the serial direction of the transposed image: columns of its window are the rows of the parallel one
            x = scn.clone(s)
            x["image"] = flip(res[0])
            x["P"], x["S"] = scn.clone(S), None
            return x
        if P["w0"] == 0 and P["w1"] == -1 and S["w0"] == 0 and S["w1"] == -1:
            cases.append(scn.rel("staged", [a, second, s], tol=1e-12, note="parallel, then serial on the transpose"))
        # only serial, against parallel of the transpose
        b, t = scn.clone(s), scn.clone(s)
        b["P"], b["S"]["w0"], b["S"]["w1"] = None, 0, -1
        t["image"] = flip(s["image"])
        t["P"], t["S"] = scn.clone(b["S"]), None
        cases.append(scn.rel("transposed", [b, t], tol=1e-12, note="serial alone"))
        # a direction with empty lists of traps
        e = scn.clone(s)
        z = scn.clone(P)
        z["traps"] = scn.traps()
        if s["neg"] == 1:
            e["P"], e["S"] = z, None
            cases.append(scn.rel("expected", [e], ins=[e["image"]], tol=0.0, note="no traps"))
    c.relations(cases)


THREADS = (1, 2, 3, 4, 5, 8)


def thread_cases(c, n, ebc, note):
    r, cases = c.rng, []
    for _ in range(more(c, n)):
        rows, cols = r.randint(3, 8), pick(r, 7, 16, 40, 64)
        d = gen.direction(r, rows, pick(r, 0, 0, 1), ebc=ebc, window=False, kinds=[pick(r, "ic", "sc", "ic", "icco")],
                          prune=r.random() < 0.3)
        im = gen.image(r, rows, cols, neg=r.random() < 0.2)
        neg = pick(r, 0, 1, 1) if all(p["fef"] == 0 for p in d["ccd"]["phases"]) else 0
        serial = r.random() < 0.3
        if serial:
            im = flip(im)
        mode = pick(r, 1, 1, 2)
        runs = [scn.img(im, None if serial else d, d if serial else None, mode=mode, iters=2 if mode == 2 else 1, neg=neg,
                        threads=t) for t in THREADS + pick(r, (2, 8), (8, 8), (3, 4))]
        cases.append(scn.rel("same", runs, note=note))
    return cases


def sched(c, variants):
    """interleavings of threads and columns: what is (and what is not) enough for the result to be that of one thread"""
    from . import tlc
    for nt, nc, nr, priv, pscr, eb, one, good in variants:
        b = lambda x: "TRUE" if x else "FALSE"
        cfg = ("CONSTANTS NThreads = %d\nNCols = %d\nNRows = %d\nPrivate = %s\nPrivateScratch = %s\nEmptyBetween = %s\n"
               "OneThread = \"%s\"\nSPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANT SameAsAlone\n%s"
               % (nt, nc, nr, b(priv), b(pscr), b(eb), one, "PROPERTY Completes\n" if good else ""))
        r = c.tlc("Sched", cfg="S.cfg", files={"S.cfg": cfg})
        if bool(r.violated) == good:
            raise tlc.TlcError("Sched %s: %s" % ((nt, nc, nr, priv, pscr, eb, one), r.violated))


def C04(c):
    r = c.rng
    n = (3, 4, 2)
    sched(c, [n + (True, True, True, "shared", True), (2, 2, 2, False, True, True, "never", False),
              (2, 2, 2, True, False, True, "never", False)])
    c.clock_model("columns", 30)
    cases = thread_cases(c, 10, 1, "threads")
    for k in range(more(c, 55)):
        kw = dict(mode=pick(r, 1, 2), rtype=pick(r, 0, 0, 1), window=False, ebc=1, prune=r.random() < 0.3)
        s1 = gen.any_image(r, 6, 6, both=pick(r, 0, 0, 2), **kw) if k % 4 else gen.wide(r, 9000, **kw)
        serial = s1["P"] is None
        im = flip(s1["image"]) if serial else s1["image"]
        cols = len(im[0])
        fef = any(p["fef"] > 0 for p in (s1["P"] or s1["S"])["ccd"]["phases"])

        def put(im, s1=s1, serial=serial):
            x = scn.clone(s1)
            x["image"] = flip(im) if serial else im
            x["threads"] = pick(r, 1, 2, 4, 8)
            return x
        rel = "lines" if serial else "columns"
        perm = list(range(cols))
        r.shuffle(perm)
        cases.append(scn.rel(rel, [s1, put([[row[p] for p in perm] for row in im])], m=[(p, k) for k, p in enumerate(perm)],
                             note="permuted columns"))
        j = r.randrange(cols)
        other = gen.image(r, len(im), cols, neg=not fef and r.random() < 0.3)
        cases.append(scn.rel(rel, [s1, put([[row[k] if k == j else other[i][k] for k in range(cols)] for i, row in enumerate(im)])],
                             m=[(j, j)], note="other columns"))
        cases.append(scn.rel(rel, [s1, put([[row[j]] for row in im])], m=[(j, 0)], note="column alone"))
    c.relations(cases)


def C05(c):
    r = c.rng
    n = (3, 4, 2)
    sched(c, [n + (True, True, False, "shared", True), (2, 2, 2, True, True, False, "never", False)])
    c.clock_model("columns", 30)
    images(c, lambda: gen.any_image(r, 5, 4, ebc=0, mode=pick(r, 0, 1, 1, 2)), 900e3)
    wides(c, 10, ebc=0)
    cases = thread_cases(c, 10, 0, "threads, shared traps")
    for _ in range(more(c, 30)):
        s1 = gen.any_image(r, 5, 6, mode=1, both=0, window=False, ebc=0, rtype=pick(r, 0, 0, 1), prune=r.random() < 0.3)
        cols = len(s1["image"][0])
        # columns read out later do not matter
        k = r.randrange(cols)
        s2 = scn.clone(s1)
        fef = any(p["fef"] > 0 for p in s1["P"]["ccd"]["phases"])
        other = gen.image(r, len(s1["image"]), cols, neg=not fef and r.random() < 0.3)
        s2["image"] = [[v if j < k else other[i][j] for j, v in enumerate(row)] for i, row in enumerate(s1["image"])]
        s2["threads"] = pick(r, 1, 2, 4, 8)
        if not s1["P"]["traps"]["icco"] and not s1["P"]["traps"]["scco"]:
            cases.append(scn.rel("prefix", [s1, s2], n=[k], tol=0.0, note="later columns"))
    c.relations(cases)


def C06(c):
    r = c.rng
    c.clock_model("window", 60 if c.thorough else 30)
    images(c, lambda: gen.any_image(r, 6, 4), 600e3)
    cases = []
    for _ in range(more(c, 50)):
        # nothing outside the window changes; columns within it are those of the full run
        rows, cols = r.randint(1, 7), r.randint(1, 5)
        # releases into neighbouring pixels may leave the window of rows by a pixel: one phase only
        d = gen.direction(r, rows, pick(r, 0, 1), nph=1, window=False)
        im = gen.image(r, rows, cols)
        neg = 1 if all(p["fef"] == 0 for p in d["ccd"]["phases"]) else 0
        a = r.randrange(rows)
        b = r.randint(a + 1, rows)
        e = r.randrange(cols)
        f = r.randint(e + 1, cols)
        w = scn.clone(d)
        w["w0"], w["w1"] = pick(r, (a, b), (0, -1), (a, -1))
        cut = scn.clone(w)
        one = scn.img(im, w, mode=0, neg=neg, c0=e, c1=f)
        lo, hi = w["w0"], rows if w["w1"] == -1 else w["w1"]
        cases.append(scn.rel("outside", [one], ins=[im], n=[lo, hi, e, f], note="window"))
        if d["roe"]["ebc"] == 1:
            cases.append(scn.rel("columns", [scn.img(im, cut, mode=0, neg=neg), one], m=[(k, k) for k in range(e, f)],
                                 note="window of columns"))
        # the same by way of add_cti: the parallel window of columns is the serial window of rows
        v = scn.clone(w)
        dummy = scn.dirn(scn.roe(), scn.ccd(), scn.traps(), w0=e, w1=f)
        cases.append(scn.rel("close", [one, scn.img(im, v, dummy, neg=neg)], tol=0.0, note="window of add_cti"))
        if neg:
            # negative pixels outside it stay what they are, too, also where they are not allowed within
            q = scn.clone(dummy) if r.random() < 0.5 else None
            if q:
                q["traps"] = gen.traps(r, ["ic"])
                q["express"] = pick(r, 0, 1)
            elif (e, f) != (0, cols):
                q = scn.clone(dummy)
            cases.append(scn.rel("outside", [scn.img(gen.image(r, rows, cols, neg=True), v, q, neg=pick(r, 0, 0, 1))],
                                 n=[lo, hi, e, f], note="negative pixels outside the window"))
            cases[-1]["ins"] = [cases[-1]["scens"][0]["image"]]
        # rows below the window do not matter, nor those above it
        if hi - lo < rows:
            other = gen.image(r, rows, cols)
            im2 = [row if lo <= i < hi else other[i] for i, row in enumerate(im)]
            two = scn.clone(one)
            two["image"] = im2
            if lo < hi and w["roe"]["ebc"] in (0, 1):
                cases.append(scn.rel("rows", [one, two], m=[(i, i) for i in range(lo, hi)], tol=0.0, note="rows outside"))
    for _ in range(more(c, 40)):
        # leading rows without charge are an offset
        rows, cols, k = r.randint(1, 5), r.randint(1, 3), r.randint(1, 4)
        d = gen.direction(r, rows, 0, nph=1, window=False, ebc=1, express=pick(r, 0, 1, None), prune=False)
        d["roe"]["eft"] = 0
        if d["express"] not in (0, 1):
            d["express"] = rows + k + d["offset"] + d["roe"]["prescan"]
        d["roe"]["overscan"] = -1
        if any(p["fef"] > 0 for p in d["ccd"]["phases"]) or any(p["notch"] < 0 for p in d["ccd"]["phases"]):
            continue
        im = gen.image(r, rows, cols)
        full = [[0.0] * cols for _ in range(k)] + im
        o = scn.clone(d)
        o["offset"] += k
        if d["express"] == 1:
            # one pass: the multipliers are those of the same transfers
            pass
        cases.append(scn.rel("rows", [scn.img(full, d), scn.img(im, o)], m=[(k + i, i) for i in range(rows)], tol=1e-9,
                             note="offset"))
        # a prescan is an offset
        p1, p2 = scn.clone(d), scn.clone(d)
        n = d["roe"]["prescan"]
        p1["roe"]["prescan"], p1["offset"] = 0, d["offset"] + n
        p2["roe"]["prescan"], p2["offset"] = d["offset"] + n, 0
        cases.append(scn.rel("close", [scn.img(im, p1), scn.img(im, p2)], tol=1e-9, note="prescan"))
    c.relations(cases)


def C07(c):
    r = c.rng
    c.clock_model("remove", 40 if c.thorough else 20)
    images(c, lambda: gen.any_image(r, 5, 3, mode=2), 900e3)
    reals(c, 10, mode=2)
    cases = []
    for _ in range(more(c, 25)):
        s = gen.any_image(r, 5, 4, mode=2)
        n = pick(r, 1, 2, 3, 4)
        cases.append(iterate(s, n, "iterates"))
    for _ in range(more(c, 15)):
        s = gen.any_image(r, 5, 3, mode=2, nph=1, rtype=0, both=0, kinds=["ic"])
        for k in ("ic",):
            for t in s["P"]["traps"][k]:
                t["d"] = min(t["d"], 0.3)
        s["neg"] = 1
        s["P"]["ccd"]["phases"] = [scn.phase(1e4, 0.0, 1.0)]
        s["P"]["roe"].update(prescan=0)
        s["P"]["offset"] = 0
        s["image"] = [[abs(v) + 50.0 for v in row] for row in s["image"]]
        cases.append(dict(iterate(s, 3, "shrinks"), x=[0.5], tol=1e-9))
    for _ in range(more(c, 25)):
        # a fixed point: correcting the trailed image, starting from the estimate it came from, is to stay there;
        # no iterations at all return the input
        s = gen.any_image(r, 5, 3, mode=2)
        s["iters"] = 0
        cases.append(scn.rel("expected", [s], ins=[s["image"]], tol=0.0, note="no iterations"))
    for _ in range(more(c, 8)):
        # nothing leaves the image: the correction only moves charge within it
        s = gen.any_image(r, 1, 1, mode=2, rtype=1, both=0, nph=1, kinds=[pick(r, "ic", "sc")], window=False, offset=False, zero=False)
        d, rows, cols = s["P"], pick(r, 40, 60), pick(r, 1, 2)
        d["roe"].update(prescan=0, overscan=-1, ebc=1)
        d["express"] = pick(r, 0, 1, 1)
        for k in d["traps"]:
            for t in d["traps"][k]:
                t["tau"] = round(r.uniform(0.1, 0.6), 3)
                if "tc" in t:
                    t["tc"] = pick(r, 0.0, 0.1)
        s["image"] = [[r.uniform(300, 3000) if i == 4 else 0.0 for _ in range(cols)] for i in range(rows)]
        cases.append(iterate(s, pick(r, 1, 2, 3), "iterates"))
    for _ in range(more(c, 6)):
        # close to where the iteration stops changing anything: it goes on for as long as it was told to
        s = gen.any_image(r, 4, 2, mode=2, nph=1, rtype=0, both=0, kinds=["ic"])
        for t in s["P"]["traps"]["ic"]:
            t["d"] = min(t["d"], 0.3)
        s["neg"] = 1
        s["image"] = [[abs(v) + 50.0 for v in row] for row in s["image"]]
        cases.append(iterate(s, pick(r, 7, 9), "iterates"))
    for k in range(more(c, 5)):
        # so many traps that it takes many iterations
        s = gen.any_image(r, 4, 2, mode=2, nph=1, rtype=0, both=0, kinds=[pick(r, "ic", "sc")], minr=2)
        for t in s["P"]["traps"]["ic"] + s["P"]["traps"]["sc"]:
            t["d"] = round(r.uniform(100, 300), 1)
        s["image"] = [[r.uniform(100, 900) for _ in row] for row in s["image"]]
        cases.append(iterate(s, (12, 15, 22, 30, 55)[k % 5], "iterates"))
    c.relations(cases)


def iterate(s, n, rel):
    out = []
    for k in range(1, n + 1):
        out.append(dict(scn.clone(s), iters=k))
    out.append(dict(scn.clone(s), mode=1))
    for k in range(1, n + 1):
        out.append(lambda res, s=s, k=k: dict(scn.clone(s), mode=1, image=res[k - 1]))
    return scn.rel(rel, out, ins=[s["image"]], n=[n, s["neg"]], tol=1e-9, note="%d iterations" % n)


def C08(c):
    r = c.rng
    c.clock_model("clamp", 60 if c.thorough else 30)

    def make(mode=None):
        s = gen.any_image(r, 6, 3, mode=mode)
        if r.random() < 0.8:
            s["neg"] = 0
        if all(p["fef"] == 0 for d in (s["P"], s["S"]) if d for p in d["ccd"]["phases"]):
            s["image"] = gen.image(r, len(s["image"]), len(s["image"][0]), neg=r.random() < 0.3)
            if r.random() < 0.5:
                s["image"] = [[v * 0.01 if r.random() < 0.6 else v for v in row] for row in s["image"]]
        for d in (s["P"], s["S"]):
            if d and r.random() < 0.5:
                d["express"] = 1
        return s
    images(c, make, 1200e3)
    cases = []
    for s in gen.batch(r, make, more(c, 600e3), 100e3):
        s["neg"] = 0
        if any(d and (d["w0"] != 0 or d["w1"] != -1) for d in (s["P"], s["S"])) or s["c0"] != 0 or s["c1"] != -1:
            s["image"] = [[abs(v) for v in row] for row in s["image"]]
        cases.append(scn.rel("nonnegative", [s] if touched(s) else [dict(s, image=[[abs(v) for v in row] for row in s["image"]])]))
    for _ in range(more(c, 20)):
        # nothing goes negative: treated as when it is allowed to
        s = gen.any_image(r, 5, 2, mode=1, express=0, kinds=["ic"])
        for d in (s["P"], s["S"]):
            if d:
                for t in d["traps"]["ic"]:
                    t["d"] = min(t["d"], 0.5)
        s["image"] = [[abs(v) + 200.0 for v in row] for row in s["image"]]
        cases.append(scn.rel("same", [dict(scn.clone(s), neg=0), dict(scn.clone(s), neg=1)], note="far from zero"))
    c.relations(cases)


def touched(s):
    """is every pixel certain to be transferred (an input pixel never touched keeps its sign)?"""
    return all(v >= 0 for row in s["image"] for v in row) or s["mode"] == 2


def C09(c):
    r = c.rng
    cases = []
    for _ in range(more(c, 40)):
        s = gen.any_image(r, 6, 5, prune=r.random() < 0.3)
        runs = [dict(scn.clone(s), verb=v, threads=t) for v, t in ((0, 1), (1, 1), (2, 1), (0, 2), (1, 8), (0, 1))]
        cases.append(scn.rel("same", runs, note="verbosity, threads, repeated"))
    for _ in range(more(c, 60)):
        s = gen.any_image(r, 5, 4, rtype=pick(r, 0, 1, 2))
        runs = [dict(scn.clone(s), copies=k) for k in range(7)]
        cases.append(scn.rel("same", runs, note="settings copied and assigned"))
    cases += thread_cases(c, 4, pick(r, 0, 1), "threads")
    c.relations(cases)
    sequences(c, more(c, 60))
    mixes(c, more(c, 100))
    sched(c, [(3, 3, 2, True, True, True, "shared", True), (3, 3, 2, True, True, False, "shared", True)])


def sequences(c, n):
    """calls that share the image and the settings, in any order, against each call alone"""
    r = c.rng
    seqs = []
    for _ in range(n):
        s = gen.any_image(r, 5, 4, mode=pick(r, 1, 2), both=pick(r, 0, 1, 2), prune=r.random() < 0.3)
        calls = []
        for _ in range(r.randint(2, 5)):
            m = pick(r, 1, 2)
            calls.append(dict(mode=m, iters=pick(r, 1, 2) if m == 2 else 1, neg=s["neg"], verb=pick(r, 0, 0, 1, 2),
                              threads=pick(r, 1, 2, 4)))
        seqs.append((dict(kind="seq", image=s["image"], P=s["P"], S=s["S"], calls=calls), s))
    res = c.run([q for q, _ in seqs])
    cases = []
    for (q, s), x in zip(seqs, res):
        if x["outcome"] != "ok":
            continue
        for k, call in enumerate(q["calls"]):
            alone = dict(scn.clone(s), **call)
            alone["verb"] = 0
            cases.append(scn.rel("alone", [alone], ins=[x["images"][k]], note="call %d of a sequence" % k))
        cases.append(scn.rel("expected", [dict(scn.clone(s), mode=2, iters=0)], ins=[x["input"]], tol=0.0, note="input of a sequence"))
    c.relations(cases)


def mixes(c, n):
    """calls on different images with different settings, one after another in one process: each gives
    what it gives alone"""
    r = c.rng
    mixed = []
    for _ in range(n):
        s = gen.any_image(r, 5, 4, prune=r.random() < 0.2)
        calls = [s]
        for _ in range(r.randint(1, 4)):
            q = r.random()
            calls.append(gen.varied(r, s) if q < 0.6 else gen.varied(r, calls[-1]) if q < 0.8 else scn.clone(s) if q < 0.9
                         else gen.any_image(r, 5, 4, prune=r.random() < 0.2))
        mixed.append(dict(kind="mix", scens=calls))
    cases = []
    for m, x in zip(mixed, c.run(mixed)):
        if x["outcome"] != "ok":
            continue
        for k, call in enumerate(m["scens"]):
            cases.append(scn.rel("alone", [scn.clone(call)], ins=[x["images"][k]], note="call %d after different calls" % k))
    c.relations(cases)


def C10(c):
    r = c.rng

    def make():
        s = gen.any_image(r, 8, 4, prune=r.random() < 0.4, fef=True, zero=True)
        s["threads"] = pick(r, 1, 1, 3)
        s["verb"] = pick(r, 0, 0, 0, 1, 2)
        if r.random() < 0.1:
            s["image"] = [[0.0 for _ in row] for row in s["image"]]
        return s
    scens = gen.batch(r, make, more(c, 30e6), 500e3, n=more(c, 1500))
    res = c.run(scens, asan=True)
    cases = [dict(scn.rel("finite", [s], ins=[s["image"]]), res=[x], done=[s]) for s, x in zip(scens, res) if x["outcome"] == "ok"]
    for i, x in enumerate(cases):
        x["outs"] = [x["res"][0]["image"]]
    recs = [scn.j_rel(x, i) for i, x in enumerate(cases)]
    v = c.verdicts("TraceRel", recs)
    for i, x in enumerate(cases):
        if v[str(i)] != "accept":
            c.violation("pixels are not finite", x["done"][0])
    c.cov["traces_validated_against_impl"] += len(cases)
    c.run([gen.tall(r, 20000, prune=r.random() < 0.4, fef=True, zero=True) for _ in range(more(c, 60))], asan=True)
    m = [gen.manager(r, fef=True, zero=True) for _ in range(more(c, 600))]
    c.run(m, asan=True)
    c.run([random_roe(c, pick(r, 0, 1, 2)) for _ in range(more(c, 600))], asan=True)
    invalid(c)


def invalid(c):
    """settings of which some do not go together"""
    r, out = c.rng, []
    for _ in range(more(c, 700)):
        rows, cols = r.randint(1, 4), r.randint(1, 3)
        n = pick(r, 1, 2, 3, 4)
        ds = []
        for k, m in ((0, rows), (1, cols)):
            d = gen.direction(r, m, pick(r, 0, 0, 1, 2), nph=n)
            if d["roe"]["type"] == 2:
                d["w0"] = r.randrange(m)
                d["w1"] = d["w0"] + 1 if r.random() < 0.5 else pick(r, -1, r.randint(d["w0"] + 1, m))
            q = r.random()
            if q < 0.15:
                j = r.randint(1, 4)
                d["ccd"] = scn.ccd([scn.phase()] * j)
            elif q < 0.25:
                d["ccd"]["frac"] = [1.0 / (n + 1)] * (n + 1) if n == 1 or r.random() < 0.5 else [1.0 / (n - 1)] * (n - 1)
            elif q < 0.35:
                d["roe"]["dwell"] = d["roe"]["dwell"] + [0.5] * pick(r, 1, 1, 2)
            elif q < 0.55:
                k = pick(r, "window", "window", "window", "express", "offset", "pumps" if d["roe"]["type"] == 2 else "prescan",
                         "pumps" if d["roe"]["type"] == 2 else "overscan")
                if k == "window":
                    d["w0"] = pick(r, 0, 0, -1, m - 1, m, m + 1, r.randint(-9, 9))
                    d["w1"] = pick(r, -1, m, m + 1, m + 6, d["w0"] - 1, d["w0"], -2, r.randint(-9, 9))
                elif k in ("express", "offset"):
                    d[k] = pick(r, -1, -1, -2, -9, 0, 1)
                elif k == "pumps":
                    d["roe"]["npumps"] = pick(r, 0, 0, -1, -5, 1)
                else:
                    d["roe"][k] = pick(r, -1, -2, -9, 0, 1)
            ds.append(d)
        b = pick(r, 0, 0, 1, 2)
        s = scn.img(gen.image(r, rows, cols), ds[0] if b != 2 else None, ds[1] if b else None, mode=pick(r, 0, 1, 1, 2) if b == 0 else pick(r, 1, 2))
        if b and s["P"] and s["P"]["roe"]["type"] == 2 or (s["S"] and s["S"]["roe"]["type"] == 2):
            continue
        out.append(s)
    c.taken(out, scn.j_setting)


# ---------------------------------------------------------------- utilities
def number(r):
    """a number, written in one of the many ways"""
    v = pick(r, r.randint(-20, 3000), r.uniform(-10, 3000), 10 ** r.uniform(-8, 12), 0)
    if isinstance(v, int):
        return pick(r, "%d", "%+d", "%d.", "%d.0")  % v
    return pick(r, "%.3f", "%g", "%.17g", "%e", "%E", "%+.2f") % v


def texts(c, n):
    """files of images, in whatever layout, and files that are not"""
    r, out = c.rng, []
    for k in range(n):
        rows, cols = r.randint(1, 5), r.randint(1, 5)
        have = rows * cols + pick(r, 0, 0, 0, 0, 1, cols, -1, -cols, -rows * cols)
        t = [number(r) for _ in range(have)]
        head = pick(r, 2, 2, 2, 2, 2, 2, 1, 0)
        h = ["%d" % rows, "%d" % cols][:head]
        if head == 1 and have > 0:
            h.append(pick(r, "x", "rows", "-"))
        elif head == 0:
            h = pick(r, [], ["#"], ["image"])
        cut = len(t)
        if head == 2 and t and r.random() < 0.15:      # a word among the numbers
            cut = r.randrange(len(t))
            t[cut] = pick(r, "x", "--", "#")
        if head < 2 and not h:
            t, cut = [], 0
        s = dict(kind="load", path="%s/l%d.txt" % (c.work, k), there=int(r.random() < 0.95), head=head, rows=rows, cols=cols,
                 values=[float(x) for x in t[:cut]])
        if s["there"]:
            sep = pick(r, [" "], ["\n"], [" ", "\n", "\t", "  ", "\r\n", " \n\n"])
            with open(s["path"], "w", newline="") as f:
                f.write(pick(r, "", "", " ", "\n") + "".join(x + pick(r, *sep) for x in h + t))
        out.append(s)
    c.taken(out, scn.j_load)
    out = []
    for k in range(n // 4):
        # no such folder, a folder, a name that is too long, a device that is full (which shows as late as the file is closed)
        q = r.randrange(6)
        path = ["%s/s%d.txt" % (c.work, k)] * 2 + ["%s/nowhere/s%d.txt" % (c.work, k), c.work, "%s/%s.txt" % (c.work, "s" * 300), "/dev/full"]
        rows, cols = pick(r, 1, r.randint(1, 9), r.randint(1, 60)), pick(r, 1, r.randint(1, 9), r.randint(1, 60))
        out.append(dict(kind="save", path=path[q], room=int(q < 2), image=gen.image(r, rows, cols)))
    c.taken(out, scn.j_save)


def U01(c):
    r = c.rng
    s = []
    for k in range(more(c, 150)):
        rows, cols = pick(r, 1, r.randint(1, 9)), pick(r, 1, r.randint(1, 9))
        im = gen.image(r, rows, cols, neg=True)
        if r.random() < 0.3:
            im = [[v * 10 ** r.uniform(-6, 8) for v in row] for row in im]
        s.append(dict(kind="transpose", image=im))
        s.append(dict(kind="txt", image=im, path="%s/x%d.txt" % (c.work, k)))
    for _ in range(more(c, 200)):
        a = [r.randint(0, 2 * 10 ** 9), pick(r, 0, 999999, r.randint(0, 999999))]
        b = pick(r, [a[0], r.randint(0, 999999)], [a[0] + 1, r.randint(0, 999999)], [r.randint(0, 2 * 10 ** 9), r.randint(0, 999999)])
        s.append(dict(kind="time", t=a + b))
    for k in range(more(c, 200)):
        rows, cols = pick(r, 1, r.randint(1, 9)), pick(r, 1, r.randint(1, 9))
        x = dict(kind="print", form=pick(r, "row", "cols", "image"), cols=1, image=printable(r, rows, cols), path="%s/p%d.txt" % (c.work, k))
        if x["form"] != "image":
            x.update(image=printable(r, 1, rows * cols), cols=cols)
        s.append(x)
    c.utils(s)
    texts(c, more(c, 200))
    calls = []
    for _ in range(more(c, 80)):
        form = pick(r, "row", "image")
        calls.append(dict(op="printed", form=form, image=printable(r, 1 if form == "row" else pick(r, 1, r.randint(1, 9)), r.randint(1, 9)),
                          layout=pychecks.f8_layout(r)))
    pychecks.judge_records(c, "TraceUtil", calls, lambda x, u, k: dict(
        scn.j_printed(x["form"], 1, x["image"], u["after"], u["text"]), id=str(k)))


def printable(r, rows, cols):
    return [[pick(r, 0.0, 1.0, -1.0, float(r.randint(-2000, 200000)), r.gauss(0, 1) * 10 ** r.uniform(-30, 30), r.uniform(-1e3, 1e3), r.randint(1, 9) / 8)
             for _ in range(cols)] for _ in range(rows)]


# ---------------------------------------------------------------- U02
WORDS = ["-h", "--help", "-d", "--demo", "-b", "--benchmark", "-v", "-v0", "-v2", "--verbosity", "--verbosity=0", "--verb=2", "0", "2", "-1", "x",
         "-db", "-dv0", "-bdh", "-x", "-dx", "-xd", "--bogus", "--de", "--demo=1", "--", "-", "--v", "--verbosity=", "-v1x", "--=", "--helpful"]
FEW = ["-d", "-b", "-v", "--verbosity", "0", "f", "--", "-dv", "--be", "-q", "-h", "--verbosity=0"]
TEST_IMAGE = [[0.0] * 4, [200.0, 0, 0, 0], [0, 200.0, 0, 0], [0, 0, 200.0, 0], [0.0] * 4, [0.0] * 4]
BENCH = "benchmark_2k2k_image.txt"
BEFORE, AFTER = "image_test_pre_cti.txt", "image_test_cti_removed.txt"
HELP = ("-h", "--help", "-v", "--verbosity", "-d", "--demo", "-b", "--benchmark")


def numbers(text):
    """an image as it is written to files"""
    v = text.split()
    rows, cols = int(v[0]), int(v[1])
    w = [float(t) for t in v[2:]]
    if len(w) != rows * cols:
        return None
    return [w[i * cols:(i + 1) * cols] for i in range(rows)]


def printed(u, p):
    """what is wrong with what the program did, of what the model (p) says"""
    _, code, out, does, verb, rest, about = p[:7]
    lines = [l.rstrip() for l in u["out"].splitlines()]
    rest = rest.split("|")[:-1]
    verb = int(verb)
    bad = []
    if u["code"] != int(code):
        bad.append("exit code %d, not %s" % (u["code"], code))
    made = {k for k in u["left"] if k != BENCH}
    if made != ({BEFORE, AFTER} if does == "demo" else set()):
        bad.append("files %s" % sorted(made))
    if u["left"].get(BENCH) != "2 3\n1 2 3\n400 0 0\n":
        bad.append("the benchmark image was changed")
    if [l[len("Unparsed parameter: "):] for l in lines if l.startswith("Unparsed parameter:")] != (rest if out == "run" else []):
        bad.append("other parameters")
    if (out == "help") != all(any(w in l.replace(",", " ").replace("=", " ").split() for l in lines) for w in HELP):
        bad.append("help")
    errors = [l for l in lines if l.startswith("Error")]
    if out in ("value", "unknown"):
        want = "requires a value" if out == "value" else "not recognised"
        if len(errors) != 1 or want not in errors[0] or (about and about not in errors[0].split()):
            bad.append("error message %s" % errors)
    elif errors:
        bad.append("error message %s" % errors)
    said = {w: any("# " + t in l for l in lines) for w, t in (("demo", "Running demo"), ("benchmark", "Running benchmark"))}
    for w in said:
        if said[w] != (does == w and verb >= 1):
            bad.append("announcement of the " + w)
    if verb <= 0 and any("#" in l or "Wall-clock" in l for l in lines):
        bad.append("messages without verbosity")
    return bad


def surroundings(c, exe, prints):
    """what the program is to do cannot always be done"""
    r = c.rng
    image = "2 3\n1 2 3\n400 0 0\n"
    runs = []
    does = lambda w: [p for p in prints if p[3] == w]
    for p in r.sample(does("demo"), more(c, 24)) + r.sample(does("benchmark"), more(c, 48)) + r.sample(does("nothing"), more(c, 16)):
        for line in p[7].split("|")[:-1]:
            world, code, fetch = line.split(":")
            k = dict(files={BENCH: image})
            if world == "noroom":
                k.update(pick(r, dict(folders=[BEFORE]), dict(folders=[AFTER]), dict(full=[BEFORE]), dict(full=[AFTER])))
            elif world == "noimage":
                k = dict(files={}, wget=pick(r, None, (r.randint(1, 8), None, ""), (r.randint(1, 8), None, "")))
            elif world == "fetched":
                k = dict(files={}, wget=(0, BENCH, image))
            elif world == "badimage":
                k = dict(files={BENCH: pick(r, "", "2 3\n1 2 3\n400 0\n", "an image\n", "2\n")})
            runs.append((p, world, int(code), int(fetch), k))
    with cf.ThreadPoolExecutor(8) as ex:
        res = list(ex.map(lambda x: impl.command(exe, x[0][0].split("|")[:-1], **x[4]), runs))
    c.cov["runs_of_the_code"] += len(res)
    c.cov["traces_validated_against_impl"] += len(res)
    n = c.notes.setdefault("surroundings", {})
    for (p, world, code, fetch, k), u in zip(runs, res):
        n[world + " " + p[3]] = n.get(world + " " + p[3], 0) + 1
        bad = []
        if (u["code"] == 0) != (code == 0):
            bad.append("exit code %d" % u["code"])
        if u.get("fetched") and not fetch:
            bad.append("something is fetched")
        if world == "fetched" and fetch and u["left"].get(BENCH) != image:
            bad.append("the image is not fetched")
        if bad and len(c.violations) < 4:
            c.violation("%s, %s: %s" % (" ".join(p[0].split("|")), world, "; ".join(bad)), dict(argv=p[0].split("|")[:-1], world=k, code=u["code"], out=u["out"][:1000]))


def U02(c):
    r = c.rng
    m = c.model("MC_Command", dict(words=[list(w) for w in WORDS], few=[list(w) for w in FEW], n=2))
    exe = impl.program(c.work)
    files = {BENCH: "2 3\n1 2 3\n400 0 0\n"}
    prints = m.prints if c.thorough else [p for p in m.prints if p[0].count("|") < 2] + r.sample(m.prints, 1600)
    with cf.ThreadPoolExecutor(8) as ex:
        res = list(ex.map(lambda p: impl.command(exe, p[0].split("|")[:-1], files), prints))
    c.cov["runs_of_the_code"] += len(res)
    c.cov["traces_validated_against_impl"] += len(res)
    n = c.notes.setdefault("command lines", {})
    demos = {}
    for p, u in zip(prints, res):
        n[p[2] + " " + p[3]] = n.get(p[2] + " " + p[3], 0) + 1
        bad = printed(u, p)
        if bad and len(c.violations) < 4:
            c.violation("%s: %s" % (" ".join(p[0].split("|")), "; ".join(bad)), dict(argv=p[0].split("|")[:-1], model=p, code=u["code"], out=u["out"][:2000]))
        if p[3] == "demo" and not bad:
            demos[u["left"][BEFORE], u["left"][AFTER]] = p
    surroundings(c, exe, m.prints)
    # what the demo does to its image is what the specification says
    d = scn.dirn(scn.roe(eft=1), scn.ccd([scn.phase(fw=1e3)]), scn.traps(ic=[(10.0, -1.0 / math.log(0.5))]), prune_n=0.0)
    add = scn.img(TEST_IMAGE, d, scn.clone(d), mode=1, neg=0)
    trailed = c.run([add])[0]
    undo = scn.img(trailed.get("image", TEST_IMAGE), d, scn.clone(d), mode=2, iters=5)
    c.images([add, undo])
    end = c.run([undo])[0]
    cases = []
    for (before, after), p in demos.items():
        if end["outcome"] == "ok":
            for im, want in ((before, TEST_IMAGE), (after, end["image"])):
                k = scn.rel("expected", [], ins=[want], tol=1.1e-6, scale=1.0, note="demo " + p[0])
                k.update(outs=[numbers(im) or [[math.nan]]], done=[dict(file=im)])
                cases.append(k)
    pychecks.judge_relations(c, cases)
