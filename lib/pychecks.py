"""The properties of the Python package."""
from . import gen, models, pycall, scn
from .gen import pick
from fractions import Fraction as F



def more(c, n):
    """sizes grow in thorough runs"""
    return n * (8 if c.thorough else 1)


def flip(im):
    return [[row[j] for row in im] for j in range(len(im[0]))]


# ---------------------------------------------------------------- calls
def py_scenario(r, maxr=5, maxc=4, mode=None, **kw):
    """a scenario as the Python package has them"""
    mode = mode or pick(r, 1, 1, 2)
    s = gen.any_image(r, maxr, maxc, mode=mode, prune=r.random() < 0.25, zero=True, **kw)
    if r.random() < 0.35:       # the other way round
        s["P"], s["S"], s["image"] = s["S"], s["P"], flip(s["image"])
    rows, cols = len(s["image"]), len(s["image"][0])
    for side, n in (("P", rows), ("S", cols)):
        d = s[side]
        if d is None:
            if r.random() < 0.25:     # a window in a direction that is not clocked
                d = scn.dirn(traps_=scn.traps())
                d["w0"] = r.randrange(n)
                d["w1"] = pick(r, -1, r.randint(d["w0"] + 1, n))
                s[side] = d
        else:
            d["null_empty"] = 1
            if d["w0"] == 0 and d["w1"] == -1 and r.random() < 0.15 and d["roe"]["type"] != 2:
                d["w1"] = n
    if r.random() < 0.04:
        s["P"] = s["S"] = None
    fef = any(p["fef"] > 0 for d in (s["P"], s["S"]) if d for p in d["ccd"]["phases"])
    if mode == 2:
        s["iters"] = pick(r, 1, 2, 2, 3) if not fef else pick(r, 1, 2)
    return s


def windows_only(s):
    """directions without traps give their windows only"""
    g = {}
    for side, k in (("parallel", "P"), ("serial", "S")):
        d = s[k]
        if d and not any(d["traps"].values()):
            if d["w0"]:
                g[side + "_window_start"] = d["w0"]
            if d["w1"] != -1:
                g[side + "_window_stop"] = d["w1"]
    return g


def py_call(r, s, **kw):
    e = windows_only(s)
    t = scn.clone(s)
    for k in ("P", "S"):
        if t[k] and not any(t[k]["traps"].values()):
            t[k] = None
    x = pycall.cti(r, t, **kw)
    s["image"] = t["image"]
    x["given"].update(e)
    return x


def bounces(r, n=None):
    out = []
    for _ in range(n or pick(r, 1, 1, 2, 3)):
        w = pick(r, 0.0, 1.0, round(r.uniform(0, 6.3), 3), 3.141592653589793)
        g = pick(r, 0.0, 1.0, 20.0, round(r.uniform(0, 3), 3), round(r.uniform(0, 0.2), 4))
        k = 10 ** r.uniform(-4, -0.7)
        out.append(pycall.obj(r, "PixelBounce", dict(kA=pick(r, 0.0, k, -k, r.uniform(-k, k)), kv=pick(r, 0.0, r.uniform(-k, k)), gamma=g,
                                                     omega=w), pycall.DEFAULT["PixelBounce"]))
    return out


def judge_calls(c, calls, res, found):
    """the specification's verdicts; found() gets the calls that differ from it as a known finding says"""
    ok = [i for i in range(len(calls)) if res[i]["outcome"] == "ok"]
    v = c.verdicts("TraceImage", [pycall.j_call(calls[i], res[i], i) for i in ok])
    c.cov["traces_validated_against_impl"] += len(ok)
    n = c.notes.setdefault("verdicts of calls", {})
    bad = []
    for i in ok:
        t = v[str(i)]
        n[t.split(" ")[0]] = n.get(t.split(" ")[0], 0) + 1
        if t.startswith("reject"):
            bad.append(i)
    again = [i for i in bad if calls[i]["fn"] == "remove_cti" and calls[i]["iters"] > 1 and not calls[i]["given"].get("allow_negative_pixels", 1)]
    v2 = c.verdicts("TraceImage", [pycall.j_call(calls[i], res[i], i, clampfirst=1) for i in again])
    known = [i for i in again if not v2[str(i)].startswith("reject")]
    if known:
        n["known finding"] = len(known)
        found()
    for i in [i for i in bad if i not in known][:3]:
        confirm(c, calls, i, "TraceImage", lambda x, u, k: pycall.j_call(x, u, k, clampfirst=1 if i in again else 0), "Python call: ")


def Y01(c):
    r = c.rng

    def found():
        c.known_finding("clamps-once", "remove_cti(allow_negative_pixels=0) of the Python package sets negative pixels to zero after its first "
                        "iteration only, the core after every one")
    calls = []
    for s in gen.batch(r, lambda: py_scenario(r), more(c, 2500e3), 100e3):
        calls.append(py_call(r, s))
    for s in gen.batch(r, lambda: py_scenario(r, fef=True), more(c, 400e3), 100e3):
        calls.append(py_call(r, s))
    for s in gen.batch(r, lambda: py_scenario(r, 24, 1, both=0), more(c, 600e3), 200e3):     # where the usual pruning acts
        for k in ("P", "S"):
            if s[k]:
                s[k]["prune_n"], s[k]["prune_f"] = 1e-10, 20
        calls.append(py_call(r, s))
    for _ in range(more(c, 12)):
        calls.append(clamped(r))
    judge_calls(c, calls, c.python(calls), found)
    # calls that differ in one thing, one after another in the same process
    lanes = [[] for _ in range(8)]
    for l in lanes:
        for _ in range(more(c, 6)):
            s = py_scenario(r, 5, 4)
            if s["P"] is None and s["S"] is None or gen.cost(s) > 60e3:
                continue
            l.append(s)
            for _ in range(r.randint(1, 3)):
                l.append(gen.varied(r, s if r.random() < 0.7 else l[-1]))
    for l in lanes[:more(c, 4)]:
        s = py_scenario(r, 4, 2, mode=2, both=0, rtype=0, kinds=[pick(r, "ic", "sc")])
        if s["P"] is not None:
            s["image"] = [[r.uniform(100, 900) for _ in row] for row in s["image"]]
            for t in s["P"]["traps"]["ic"] + s["P"]["traps"]["sc"]:
                t["d"] = round(r.uniform(100, 300), 1)
            s["iters"] = r.randint(6, 25)
            l.append(s)
    for l in lanes:
        l += [l[-1]] * (max(len(x) for x in lanes) - len(l))
    calls = [py_call(r, s) for row in zip(*lanes) for s in row]
    judge_calls(c, calls, c.python(calls), found)
    same_as_core(c)


def clamped(r):
    """a correction that goes negative"""
    d = scn.dirn(scn.roe(), scn.ccd(), scn.traps(ic=[(r.uniform(20, 60), r.uniform(0.5, 2))]), express=1)
    s = scn.img([[0.0], [r.uniform(500, 3000)], [0.0], [r.uniform(0, 5)]], d, mode=2, iters=pick(r, 2, 3), neg=0)
    return py_call(r, s)


def same_as_core(c):
    """larger images: the same calls of the core"""
    r, calls, scens = c.rng, [], []
    for _ in range(more(c, 60)):
        s = py_scenario(r, 40, 30, fef=r.random() < 0.2)
        if s["mode"] == 2 and s["iters"] > 1 and s["neg"] == 0:
            s["iters"] = 1
        if s["P"] is None and s["S"] is None:
            continue
        calls.append(py_call(r, s))
        if not any(d and any(d["traps"].values()) for d in (s["P"], s["S"])):
            calls.pop()
            continue
        scens.append(s)
    a, b = c.python(calls), c.run(scens)
    cases = []
    for s, x, u, v in zip(scens, calls, a, b):
        if u["outcome"] == v["outcome"] == "ok":
            k = scn.rel("close", [s], tol=1e-11, note="call of the package and of the core")
            k.update(outs=[u["image"], v["image"]], done=[x, s])
            cases.append(k)
    judge_relations(c, cases)


def judge_relations(c, cases):
    """relations between results that are already there"""
    v = c.verdicts("TraceRel", [scn.j_rel(x, i) for i, x in enumerate(cases)])
    n = c.notes.setdefault("relations", {})
    for i, x in enumerate(cases):
        n[x["rel"]] = n.get(x["rel"], 0) + 1
        if v[str(i)] != "accept" and len(c.violations) < 5:
            c.violation("relation %s does not hold (%s)" % (x["rel"], x["note"]), x["done"])
    c.cov["traces_validated_against_impl"] += sum(len(x["outs"]) for x in cases)


def judge_records(c, module, calls, record, res=None):
    """results of calls of another kind: record(call, result, id) is what the specification gets"""
    res = res or c.python(calls)
    ok = [i for i in range(len(calls)) if res[i]["outcome"] == "ok"]
    v = c.verdicts(module, [record(calls[i], res[i], i) for i in ok])
    c.cov["traces_validated_against_impl"] += len(ok)
    n = c.notes.setdefault("verdicts " + module, {})
    for i in ok:
        k = v[str(i)].split(" ")[0]
        n[k] = n.get(k, 0) + 1
    for i in [i for i in ok if v[str(i)].startswith("reject")][:3]:
        confirm(c, calls, i, module, record, module + ": ")
    return res


def confirm(c, calls, i, module, record, what):
    """a rejected call is made again: alone, and where that is accepted, after the calls that it came after"""
    for made in ([calls[i]], calls[i % 8:i + 1:8]):
        u = c.python(made, 1)[-1]
        t = c.verdicts(module, [record(calls[i], u, i)])[str(i)] if u["outcome"] == "ok" else ""
        if t.startswith("reject"):
            c.violation(what + t + (" (after other calls of the same process)" if len(made) > 1 else ""), made if len(made) > 1 else calls[i])
            return


def largest(im):
    return max([1.0] + [abs(v) for row in im for v in row])


# ---------------------------------------------------------------- Y02
def j_acs(x, r, ident):
    def floats(o, ints):
        return {k: v if k in ints else scn.j_nums(v) if isinstance(v, list) else scn.pair(v) for k, v in o.items()}

    def side(o):
        return dict(roe=floats(o["roe"], ("type", "prescan", "overscan", "ebc", "eft", "fra", "intm", "length")), ccd=floats(o["ccd"], ()))
    return dict(id=str(ident), date=scn.pair(x["date"]), P=side(r["P"]), S=side(r["S"]), none=r["none"], kinds=r["kinds"],
                traps=[floats(t, ()) for t in r["traps"]])


EPOCHS = (2452334.5, 2453920.0, 2454968.0)


def acs_dates(c):
    r = c.rng
    out = []
    for e in EPOCHS:
        out += [e, e + 1e-6, e + 0.5, e + 1, e + 30.25] + [e + r.uniform(0, 2000) for _ in range(more(c, 10))]
        if e > EPOCHS[0]:
            out += [e - 1e-6, e - 0.5, e - 1]
    out += [2452335, 2453919, 2453920, 2453921, 2454967, 2454968, 2454969, 2460000]      # whole numbers of Python
    out += [r.randint(2452335, 2466000) for _ in range(more(c, 20))] + [r.uniform(2452334.5, 2470000) for _ in range(more(c, 60))]
    return out


def Y02(c):
    r = c.rng
    m = c.model("MC_Acs")
    dates = [float(eval_fraction(p[0])) for p in m.prints]
    calls = [dict(op="acs", date=d) for d in dates + acs_dates(c)]
    judge_records(c, "TraceAcs", calls, j_acs)
    # a call with a ready-made model
    calls = []
    for s in gen.batch(r, lambda: acs_scenario(r), more(c, 500e3), 100e3):
        x = py_call(r, s)
        for k in ("parallel_roe", "parallel_ccd", "parallel_traps"):
            x["given"].pop(k, None)
        x["acs"] = pick(r, *acs_dates(c))
        calls.append(x)
    judge_calls(c, calls, c.python(calls), lambda: None)


def eval_fraction(t):
    from fractions import Fraction
    return Fraction(t)


def acs_scenario(r):
    s = gen.any_image(r, 12, 3, mode=pick(r, 1, 1, 2), both=pick(r, 0, 0, 1), rtype=0, nph=1, kinds=["ic"])
    if s["P"] is None:
        s["P"] = s.pop("S")
        s["S"] = None
    # the readout, pixel and three species of traps of the model take the place of these
    s["P"]["traps"] = scn.traps(ic=[(1.0, 1.0), (1.0, 2.0), (1.0, 3.0)])
    s["P"]["ccd"] = scn.ccd()
    s["P"]["roe"] = scn.roe()
    if s["mode"] == 2 and s["iters"] > 1:
        s["neg"] = 1
    return s


# ---------------------------------------------------------------- Y03
HOW = dict(bias="bias", add="add", slow="add", adds="add", remove="remove", removes="remove")


def j_bounce(x, r, ident):
    w = x["window"]
    a = 1e-9 * largest(x["image"])
    return dict(id=str(ident), image=scn.j_image(x["image"]), osc=[pycall.j_given(o["given"]) for o in x["osc"]],
                window=[w.get("parallel_window_start", 0), w.get("parallel_window_stop", -1), w.get("serial_window_start", 0),
                        w.get("serial_window_stop", -1)],
                what=HOW[x["how"]], iters=x["iters"], out=scn.j_image(r["image"]), rel=scn.pair(1e-9), abs=scn.pair(a),
                kept=int(r["unchanged"] and r["settings"]))


def bounce_image(r, rows, cols):
    k = r.randrange(6)
    hi = 10 ** r.uniform(0, 4.5)
    if k == 0:
        return [[hi] * cols for _ in range(rows)]
    if k == 1:
        return [[0.0 if j % 3 else hi for j in range(cols)] for _ in range(rows)]
    if k == 2:     # a trail of light
        return [[r.uniform(0, hi) if abs(i - j) < 2 else 0.0 for j in range(cols)] for i in range(rows)]
    return [[r.uniform(-hi / 4 if k == 3 else 0, hi) for _ in range(cols)] for _ in range(rows)]


def bounce_call(r, how=None, maxr=4, maxc=9, osc=None, im=None, window=None):
    how = how or r.choice(list(HOW))
    im = im or bounce_image(r, r.randint(1, maxr), r.randint(1, maxc))
    rows, cols = len(im), len(im[0])
    lay, im = pycall.layout(r, im)
    if lay["how"] == "list" and how == "slow":
        lay["how"] = "c"
    w = {}
    if how != "slow" and window is not False:
        for a, n in (("parallel", rows), ("serial", cols)):
            if r.random() < 0.4:
                lo = r.randrange(n)
                w[a + "_window_start"] = lo
                if r.random() < 0.7:
                    w[a + "_window_stop"] = r.randint(lo + 1, n)
            elif r.random() < 0.2:
                w[a + "_window_stop"] = pick(r, n, r.randint(1, n), -1)
    return dict(op="bounce", how=how, osc=osc or bounces(r, None if how in ("adds", "removes") else 1), image=im, layout=lay, window=w,
                iters=pick(r, 1, 2, 3, 5) if "remove" in how else 1)


def f8(x):
    x["layout"] = dict(dtype="f8", how="c")
    return x


def Y03(c):
    r = c.rng
    bounce_model(c)
    judge_records(c, "TraceBounce", [bounce_call(r) for _ in range(more(c, 500))] + [bounce_call(r, maxr=2, maxc=60) for _ in range(more(c, 60))],
                  j_bounce)
    bounce_relations(c)
    # together with trails
    calls = []
    for s in gen.batch(r, lambda: py_scenario(r, 4, 5), more(c, 900e3), 100e3):
        if s["mode"] == 2 and s["iters"] > 1:
            s["neg"] = 1
        s["prune"] = 0
        x = py_call(r, s)
        x["given"]["pixel_bounce_list"] = bounces(r)
        calls.append(x)
    judge_calls(c, calls, c.python(calls), lambda: None)


def bounce_model(c):
    """every row of MC_Bounce, and its biases compared with the code"""
    import math
    osc = [(1, F(1, 4), F(1, 3), F(1, 7)), (F(-1, 2), F(1, 9), F(-1, 5), F(1, 9)), (F(1, 3), F(1, 4), F(1, 2), 0), (0, F(1, 2), 0, F(1, 4)),
           (F(6, 5), F(9, 16), F(1, 20), F(1, 40)), (F(1, 2), 1, F(1, 10), F(-1, 10)), (1, F(1, 4), 0, 0), (F(3, 2), F(9, 16), F(1, 50), F(1, 100)),
           (0, F(1, 4), 2, 1), (F(1, 2), F(1, 16), F(7, 3), F(2, 1)), (-2, 1, F(1, 50), 0)]
    conf = dict(n=5 if c.thorough else 4, pixels=[0, 1, 5], others=[1, 2], osc=[dict(A=models.fr(a), B=models.fr(b), kA=models.fr(k), kv=models.fr(v)) for a, b, k, v in osc])
    m = c.model("MC_Bounce", conf)
    calls, wants = [], []
    for o in range(1, len(osc) + 1):
        a, b, k, v = (float(y) for y in osc[o - 1])
        g = -math.log(b) / 2
        given = dict(kA=k, kv=v, gamma=g, omega=math.acos(max(-1.0, min(1.0, a / (2 * math.sqrt(b))))))
        rows = [p for p in m.prints if int(p[0]) == o]
        # all rows of the model as rows of one image
        calls.append(f8(bounce_call(c.rng, "bias", osc=[dict(cls="PixelBounce", given=given)], im=[models.wants(p[1]) for p in rows], window=False)))
        wants.append([models.wants(p[2]) for p in rows])
    cases = []
    for x, u, w in zip(calls, c.python(calls), wants):
        if u["outcome"] == "ok":
            k = scn.rel("expected", [], ins=[w], tol=1e-9, scale=10.0, note="MC_Bounce")
            k.update(outs=[u["image"]], done=[x])
            cases.append(k)
    judge_relations(c, cases)
    c.notes["rows of MC_Bounce"] = sum(len(x["image"]) for x in calls)


def bounce_relations(c):
    """larger images, without the numbers of the model"""
    r = c.rng
    plans = []

    def plan(rel, calls, **kw):
        plans.append((rel, calls, kw))
    for _ in range(more(c, 25)):
        osc, im = bounces(r), bounce_image(r, *(pick(r, (2, r.randint(500, 4200)), (r.randint(200, 900), 3)) if r.random() < 0.12 else (r.randint(2, 30), r.randint(3, 80))))
        rows, cols = len(im), len(im[0])
        big = largest(im)

        def call(image, o=osc, how="adds", w=None, iters=1):
            return dict(op="bounce", how=how, osc=o, image=image, layout=dict(dtype="f8", how="c"), window=w or {}, iters=iters)
        # what is read out later, or in other rows, has no influence
        n = r.randrange(1, cols)
        plan("prefix", [call(im), call([row[:n] + [r.uniform(0, big) for _ in row[n:]] for row in im])], n=[n])
        order = list(range(rows))
        r.shuffle(order)
        plan("rows", [call(im), call([im[i] for i in order])], m=[(i, order.index(i)) for i in range(rows)], tol=1e-12)
        i = r.randrange(rows)
        plan("rows", [call(im), call([im[i]])], m=[(i, 0)], tol=1e-12)
        # linear
        im2 = bounce_image(r, rows, cols)
        a, b = r.uniform(-2, 2), r.uniform(-2, 2)
        mix = [[a * u + b * v for u, v in zip(p, q)] for p, q in zip(im, im2)]
        plan("linear", [call(im), call(im2), call(mix), call([[0.0] * cols for _ in range(rows)])], x=[a, b], tol=1e-9)
        # oscillators in any order; split in two; the slow way
        o2 = osc[:]
        r.shuffle(o2)
        plan("close", [call(im), call(im, o2)], tol=1e-11)
        h = [dict(o, given={k: (v / 2 if k in ("kA", "kv") else v) for k, v in o["given"].items()}) for o in osc]
        for o in h:
            o.pop("positional", None)
        plan("close", [call(im), call(im, h + h)], tol=1e-11)
        plan("close", [call(im, osc[:1]), call(im, osc[:1], how="slow"), call(im, osc[:1], how="add")], tol=1e-11)
        # constant rows
        flat = [[row[0]] * cols for row in im]
        plan("expected", [call(flat)], ins=[flat], tol=1e-12)
        # outside the window
        w = dict(parallel_window_start=r.randrange(rows), serial_window_start=r.randrange(cols))
        w["parallel_window_stop"] = r.randint(w["parallel_window_start"] + 1, rows)
        w["serial_window_stop"] = r.randint(w["serial_window_start"] + 1, cols)
        plan("outside", [call(im, w=w)], ins=[im], n=[w["parallel_window_start"], w["parallel_window_stop"], w["serial_window_start"], w["serial_window_stop"]])
        # a weak bounce is undone
        weak = []
        for o in osc:
            weak.append(dict(cls="PixelBounce", given=dict(kA=r.uniform(-0.01, 0.01), kv=r.uniform(-0.005, 0.005), gamma=r.uniform(0.3, 3), omega=r.uniform(0, 6))))
        plan("undone", [call(im, weak), lambda out, call=call, weak=weak: call(out, weak, how="removes", iters=12)], ins=[im], tol=1e-7)
    calls = [x for _, cs, _ in plans for x in cs if not callable(x)]
    res = iter(c.python(calls))
    got = [[next(res) if not callable(x) else x for x in cs] for _, cs, _ in plans]
    late = [(k, cs[1](got[k][0]["image"])) for k, (_, cs, _) in enumerate(plans) if len(cs) > 1 and callable(cs[1]) and got[k][0]["outcome"] == "ok"]
    for (k, x), u in zip(late, c.python([x for _, x in late])):
        got[k] = [u]
        plans[k] = ("expected", [plans[k][1][0], x], plans[k][2])
    cases = []
    for (rel, cs, kw), us in zip(plans, got):
        if rel != "undone" and all(u["outcome"] == "ok" for u in us):
            k = scn.rel(rel, [], note="pixel bounce", **kw)
            k.update(outs=[u["image"] for u in us], done=cs)
            cases.append(k)
    judge_relations(c, cases)


# ---------------------------------------------------------------- Y04
def j_noise(x, r, ident):
    return dict(id=str(ident), image=scn.j_image(x["image"]), smooth=scn.j_image(x["smooth"]), amp=scn.pair(x["amp"]), frac=scn.pair(x["frac"]),
                cols=x["cols"], out=scn.j_image(r["image"]), rel=scn.pair(1e-9), abs=scn.pair(1e-11), kept=r["unchanged"])


def f8_layout(r):
    return dict(dtype="f8", how=pick(r, "c", "c", "f", "t", "strided", "inner", "reversed"))


def noise_image(r, rows, cols, amp):
    sky = pick(r, 0.0, 5.0, 200.0, r.uniform(0, 1000))
    im = [[sky + r.gauss(0, amp) + (r.uniform(0, 500) if r.random() < 0.1 else 0) for _ in range(cols)] for _ in range(rows)]
    return im


def noise_call(r, maxr=7, maxc=7):
    rows, cols = r.randint(1, maxr), r.randint(1, maxc)
    amp = pick(r, 0.0, 1.0, 4.0, 10 ** r.uniform(-1, 1.5))
    im = noise_image(r, rows, cols, amp or 1.0)
    k = r.random()
    sm = im if k < 0.1 else noise_image(r, rows, cols, amp) if k < 0.3 else [[x - r.gauss(0, amp or 0.5) for x in row] for row in im]
    if k > 0.8:
        sm = [[x + pick(r, 0.0, 0.0, 2.0, -0.3) for x in row] for row in im]
    return dict(op="noise", image=im, smooth=[row[:] for row in sm], amp=amp, frac=pick(r, 0.2, 0.33, r.uniform(0.05, 2.0)), cols=pick(r, 0, 1),
                layout=f8_layout(r), layout2=f8_layout(r), threads=pick(r, 1, 2, 3, 8))


def j_split(x, r, ident):
    g = x["given"]
    share = 1.0 if x["share"] is None else x["share"]
    return dict(id=str(ident), image=scn.j_image(x["image"]), amp=scn.pair(g.get("sigma_readnoise", 0.0)), frac=scn.pair(g.get("amplitude_scale", 0.2)),
                scale=scn.pair(g.get("noise_model_scaling", 1.0)), cols=int(g.get("serial", True)), iters=g.get("n_iter", 200), share=scn.pair(share),
                S=scn.j_image(r["S"]), R=scn.j_image(r["R"]), rel=scn.pair(1e-7), abs=scn.pair(1e-7), fine=scn.pair(1e-12 * largest(x["image"])),
                kept=r["unchanged"])


def split_call(r, maxr=6, maxc=6, iters=None, share=True, im=None):
    amp = pick(r, 0.5, 2.0, 4.5, 10 ** r.uniform(-1, 1))
    im = im or noise_image(r, r.randint(1, maxr), r.randint(1, maxc), amp)
    im[0][0] = abs(im[0][0]) + 1.0
    g = dict(sigma_readnoise=amp, n_iter=iters or pick(r, 1, 2, 5, 12, 30))
    if r.random() < 0.4:
        g["amplitude_scale"] = pick(r, 0.33, r.uniform(0.05, 1))
    if r.random() < 0.4:
        g["noise_model_scaling"] = pick(r, 0.75, r.uniform(0.2, 1.5))
    if r.random() < 0.4:
        g["serial"] = r.random() < 0.5
    return dict(op="split", image=im, layout=f8_layout(r), given=g, share=pick(r, None, None, 1.0, 0.5, 0.0, r.uniform(0, 1), 1.3) if share else None,
                threads=pick(r, 1, 2, 4))


def Y04(c):
    r = c.rng
    noise_model(c)
    judge_records(c, "TraceNoise", [noise_call(r) for _ in range(more(c, 400))] + [noise_call(r, 1, 12) for _ in range(more(c, 30))]
                  + [noise_call(r, 12, 1) for _ in range(more(c, 30))], j_noise)
    judge_records(c, "TraceSeparate", [split_call(r) for _ in range(more(c, 150))] + [split_call(r, 4, 4, iters=200) for _ in range(more(c, 8))], j_split)
    noise_relations(c)


def noise_model(c):
    confs = [dict(shapes=[[1, 1], [1, 2], [2, 1], [1, 3], [3, 1]] + ([[2, 2]] if c.thorough else []), pixels=[0, 1, 3], smooth=[0, 1], frac=models.fr(F(1, 3)), amps=[models.fr(F(3)), models.fr(F(1, 2))]),
             dict(shapes=[[3, 3], [2, 4], [4, 2]] if c.thorough else [[2, 2], [3, 3]], pixels=[0, 4], smooth=[1], frac=models.fr(F(1, 4)), amps=[models.fr(F(2))]),
             dict(shapes=[[3, 3], [2, 3], [3, 2]] if c.thorough else [[2, 3], [3, 2]], pixels=[2], smooth=[0, 5], frac=models.fr(F(1, 2)), amps=[models.fr(F(1))])]
    calls, wants = [], []
    for conf in confs:
        m = c.model("MC_Noise", conf)
        for shape, amp, cols, im, sm, out in m.prints:
            R, C = conf["shapes"][int(shape) - 1]

            def image(t):
                v = models.wants(t)
                return [v[i * C:(i + 1) * C] for i in range(R)]
            calls.append(dict(op="noise", image=image(im), smooth=image(sm), amp=float(eval_fraction(amp)), frac=conf["frac"][0] / conf["frac"][1],
                              cols=int(cols), layout=f8_layout(c.rng), layout2=f8_layout(c.rng), threads=pick(c.rng, 1, 2)))
            wants.append(image(out))
    if len(calls) > more(c, 2500):
        k = c.rng.sample(range(len(calls)), more(c, 2500))
        calls, wants = [calls[i] for i in k], [wants[i] for i in k]
    cases = []
    for x, u, w in zip(calls, c.python(calls), wants):
        if u["outcome"] == "ok":
            k = scn.rel("expected", [], ins=[w], tol=1e-10, scale=10.0, note="MC_Noise")
            k.update(outs=[u["image"]], done=[x])
            cases.append(k)
    judge_relations(c, cases)
    c.notes["images of MC_Noise"] = len(calls)


def noise_relations(c):
    r = c.rng
    plans = []
    for _ in range(more(c, 30)):
        x = noise_call(r, *(pick(r, (110, 60), (60, 110), (3, 700), (700, 3)) if r.random() < 0.2 else (25, 25)))
        im, sm = x["image"], x["smooth"]

        def like(f, x=x, im=im, sm=sm, **kw):
            return dict(x, image=f(im), smooth=f(sm), layout=f8_layout(r), layout2=f8_layout(r), **kw)
        plans.append(("same", [x] + [like(lambda a: a, threads=t) for t in (1, 2, 3, 8)], None, {}))
        plans.append(("close", [x, like(lambda a: a[::-1])], lambda a: a[::-1], dict(tol=1e-11)))
        plans.append(("close", [x, like(lambda a: [p[::-1] for p in a])], lambda a: [p[::-1] for p in a], dict(tol=1e-11)))
        if x["cols"]:
            plans.append(("close", [x, like(flip)], flip, dict(tol=1e-11)))
        plans.append(("close", [x, like(lambda a: [[-p for p in q] for q in a])], lambda a: [[-p for p in q] for q in a], dict(tol=1e-11)))
    calls = [x for _, cs, *_ in plans for x in cs]
    res = iter(c.python(calls))
    cases = []
    for rel, cs, back, kw in plans:
        us = [next(res) for _ in cs]
        if all(u["outcome"] == "ok" for u in us):
            k = scn.rel(rel, [], note="noise model", **kw)
            k.update(outs=[us[0]["image"]] + [back(u["image"]) if back else u["image"] for u in us[1:]], done=cs)
            cases.append(k)
    # separations of larger images: exact, in proportion to the share, whatever the threads
    plans = []
    for _ in range(more(c, 15)):
        x = split_call(r, *(pick(r, (110, 60), (60, 110), (3, 500), (500, 3)) if r.random() < 0.2 else (30, 30)), iters=pick(r, 3, 10, 40), share=False)
        x["share"] = 1.0
        f = pick(r, 0.0, 0.25, 0.5, r.uniform(0, 1), 1.5)
        plans.append((x, dict(x, share=f), dict(x, share=None, threads=5, layout=f8_layout(r)), f))
    res = iter(c.python([y for p in plans for y in p[:3]]))
    for a, b, d, f in plans:
        u, v, w = next(res), next(res), next(res)
        if not all(o["outcome"] == "ok" for o in (u, v, w)):
            continue
        scale = largest(a["image"])
        for call, o in ((a, u), (b, v), (d, w)):
            k = scn.rel("split", [], ins=[a["image"]], note="separation", tol=1e-13, scale=scale)
            k.update(outs=[o["S"], o["R"]], done=[call])
            cases.append(k)
        zero = [[0.0] * len(a["image"][0]) for _ in a["image"]]
        k = scn.rel("linear", [], note="share of the noise", x=[f, 0.0], tol=1e-11, scale=scale)
        k.update(outs=[u["R"], zero, v["R"], zero], done=[a, b])
        cases.append(k)
        k = scn.rel("same", [], note="separation with another number of threads")
        k.update(outs=[u["S"], w["S"]], done=[a, d])
        cases.append(k)
    # correction of trails with and without the noise: the noise is set aside and put back
    plans = []
    for _ in range(more(c, 20)):
        s = py_scenario(r, 8, 6, mode=2)
        if s["P"] is None and s["S"] is None:
            continue
        s["neg"] = 1
        amp = pick(r, 1.0, 4.0, r.uniform(0.3, 8))
        s["image"] = noise_image(r, len(s["image"]), len(s["image"][0]), amp)
        s["image"][0][0] = abs(s["image"][0][0]) + 1.0
        x = py_call(r, s)
        x["layout"] = f8_layout(r)
        y = dict(op="split", image=x["image"], layout=f8_layout(r), given=dict(sigma_readnoise=amp), share=None, threads=1)
        plans.append((dict(x, noise=amp), x, y))
    first = c.python([y for _, _, y in plans])
    full = c.python([x for x, _, _ in plans])
    bare = c.python([dict(x, image=u["S"]) if u["outcome"] == "ok" else x for (_, x, _), u in zip(plans, first)])
    for (x, _, y), u, v, w in zip(plans, first, full, bare):
        if all(o["outcome"] == "ok" for o in (u, v, w)):
            k = scn.rel("split", [], ins=[v["image"]], note="correction without the noise", tol=1e-8)
            k.update(outs=[w["image"], u["R"]], done=[x])
            cases.append(k)
    judge_relations(c, cases)


# ---------------------------------------------------------------- Y07
def j_record(x, u, ident):
    def four(a):
        return [[scn.j_image(c) for c in b] for b in a]
    return dict(id=str(ident), before=x["before"], version=u["version"], headers=u["headers"], own=u["own"],
                calls=[dict(fn=y["fn"], header=y["header"], noise=scn.pair(y["noise"])) for y in x["calls"]],
                cov=[four(a) for a in u["cov"]], part=[four(a) for a in u["part"]],
                image=[scn.j_image(a) for a in u["image"]], plain=[scn.j_image(a) for a in u["plain"]])


def Y07(c):
    r, calls = c.rng, []
    for _ in range(more(c, 150)):
        h = []
        for _ in range(r.randint(1, 4)):
            while True:
                s = py_scenario(r, 4, 3, mode=pick(r, 1, 2))
                if s["P"] is not None or s["S"] is not None:
                    break
            s["image"] = noise_image(r, len(s["image"]), len(s["image"][0]), 2.0)
            s["image"][0][0] = abs(s["image"][0][0]) + 1.0
            x = py_call(r, s)
            h.append(dict(fn=x["fn"], iters=pick(r, 0, 1, 1, 2, 3), header=int(r.random() < 0.7), noise=pick(r, 0.0, 0.0, 1.0, r.uniform(0.5, 5)),
                          chain=int(r.random() < 0.4), image=x["image"], layout=x["layout"], given=x["given"],
                          part=pick(r, "rows", "columns", "copy", "transposed", "pixel", "again")))
            if x["fn"] == "add_cti":
                h[-1]["noise"] = 0.0
        keys = r.sample(["cticor", "ctipar", "bunit", "exptime", "ctiser", "history"], r.randint(0, 4))
        calls.append(dict(op="record", before={k: [pick(r, "ArCTIc", "PixCteCorr", "OMIT"), "as taken"] for k in keys}, calls=h))
    judge_records(c, "TraceRecord", calls, j_record)


# ---------------------------------------------------------------- W01
def volumes(c, scens):
    """the same volumes of the detectors of the package"""
    r, calls = c.rng, []
    for s in scens:
        names = dict(fw="full_well_depth", notch="well_notch_depth", beta="well_fill_power", fef="first_electron_fill")
        calls.append(dict(op="volume", phase=pycall.obj(r, "CCDPhase", {names[k]: v for k, v in s["phase"].items()}, pycall.DEFAULT["CCDPhase"]),
                          n=s["n"], scalar=int(r.random() < 0.3), flat=pick(r, 0, 1), s=s))
    res = c.python([{k: v for k, v in x.items() if k != "s"} for x in calls])
    judge_records(c, "TraceUtil", calls, lambda x, u, i: scn.j_util(x["s"], u, i), res)


# ---------------------------------------------------------------- Y05
def deviation(im):
    v = [x for row in im for x in row]
    m = sum(v) / len(v)
    return max(abs(x - m) for x in v)


def j_covar(x, r, ident):
    im = x.get("image") or [[1.0]]
    d = deviation(im)
    a = 1e-13 if x["what"] == "default" else 1e-12 * largest(im) if x["what"] == "values" else 1e-9 * d * d + 1e-12 * largest(im) * d + 1e-300
    return dict(id=str(ident), what=x["what"], image=scn.j_image(im), size=x.get("size", [1, 1]), border=x.get("border", [0, 0, 0, 0]), n=x.get("n", [1, 1]),
                out=[dict(m=scn.j_image(o["m"]), f={k: scn.pair(v) for k, v in o["f"].items()}, middle=o["middle"]) for o in r["out"]],
                kept=r["unchanged"], rel=scn.pair(1e-9), abs=scn.pair(a))


def covar_layout(r, im):
    dt = pick(r, "f8", "f8", "f8", "i4", "i8", "u2", "i2", ">f8", "g", "u1", ">i2")
    if dt == "u1":
        im = [[float(int(abs(v)) % 256) for v in row] for row in im]
    elif dt.strip(">")[0] in "iu":
        im = [[float(int(max(0 if "u" in dt else -30000, min(v, 30000)))) for v in row] for row in im]
    return dict(dtype=dt, how=r.choice([h for h in pycall.HOWS if h != "list"])), im


def covar_image(r, rows, cols):
    k = r.randrange(5)
    if k == 0:       # trails along columns or rows
        im = [[200.0 + r.gauss(0, 5) for _ in range(cols)] for _ in range(rows)]
        q = r.uniform(0.05, 0.6)
        if r.random() < 0.5:
            return [[v + (q * im[i - 1][j] if i else 0) for j, v in enumerate(row)] for i, row in enumerate(im)]
        return [[v + (q * row[j - 1] if j else 0) for j, v in enumerate(row)] for row in im]
    if k == 1:       # a gradient
        a, b = r.uniform(-9, 9), r.uniform(-9, 9)
        return [[a * i + b * j for j in range(cols)] for i in range(rows)]
    if k == 2:       # a few stars
        return [[10 ** r.uniform(2, 5) if r.random() < 0.1 else 0.0 for _ in range(cols)] for _ in range(rows)]
    if k == 3:
        return [[r.uniform(0, 10)] * cols for _ in range(rows)] if r.random() < 0.3 else [[float(r.randint(0, 3)) for _ in range(cols)] for _ in range(rows)]
    s = 10 ** r.uniform(-3, 3)
    return [[pick(r, 0.0, 500.0) + r.gauss(0, s) for _ in range(cols)] for _ in range(rows)]


def covar_call(r, what=None):
    what = what or pick(r, "image", "image", "image", "image", "corners", "values", "default")
    odd = (1, 3, 3, 5, 5, 7) if r.random() < 0.93 else (3, 9, 11, 13)
    size = [r.choice(odd), r.choice(odd)]
    x = dict(op="covar", what=what, size=size)
    if r.random() < 0.35:
        size[1] = size[0]
        x["number"] = int(r.random() < 0.7)
    if what == "default":
        if r.random() < 0.3:      # the middle of an even size is the later one
            size[r.randrange(2)] += 1
            x["number"] = 0
        x["positional"] = int(r.random() < 0.5)
        return x
    if what == "values":
        rows, cols = size
        m = [[r.gauss(0, 10) for _ in range(cols)] for _ in range(rows)]
        m[rows // 2][cols // 2] = abs(m[rows // 2][cols // 2])
        x.update(image=m, layout=dict(dtype="f8", how=pick(r, "c", "f", "t", "strided")))
        return x
    if r.random() < 0.2:
        x.update(size=[5, 5], unsized=1, number=0)
        size = x["size"]
    e = [max(s // 2, 1) for s in size]
    if what == "corners":
        x["n"] = n = [5 + 1 + 2 * e[1] + r.randint(1, 6), 5 + 1 + 2 * e[0] + r.randint(1, 6)]
        im = covar_image(r, n[1] + r.randint(1, 12), n[0] + r.randint(1, 12))
    else:
        x["border"] = b = pick(r, [5, 5, 0, 0], [0, 0, 0, 0], [r.randint(0, 4) for _ in range(4)], [r.randint(0, 4) for _ in range(4)])
        x["bordered"] = int(r.random() < 0.5)
        im = covar_image(r, b[0] + b[2] + 1 + 2 * e[0] + r.randint(1, 7), b[1] + b[3] + 1 + 2 * e[1] + r.randint(1, 7))
    x["layout"], x["image"] = covar_layout(r, im)
    return x


def covar_model(c):
    """every image of MC_Covar, and its matrix compared with the code"""
    shapes = [(3, 4, (3, 3)), (4, 3, (3, 3)), (3, 4, (1, 3)), (4, 3, (3, 1)), (3, 4, (1, 1)), (3, 4, (3, 1)), (4, 3, (1, 3))]
    runs = [(shapes, [0, 1]), ([(5, 5, (3, 3))], [2])]
    if c.thorough:
        runs.append(([(4, 4, (3, 3)), (3, 5, (1, 3))], [0, 1]))
        runs.append(([(3, 3, (3, 3)), (3, 3, (1, 3))], [0, 1, -2]))
    calls, wants = [], []
    for hs, px in runs:
        conf = dict(shapes=[dict(rows=h[0], columns=h[1], size=list(h[2])) for h in hs], pixels=px)
        m = c.model("MC_Covar", conf)
        prints = m.prints
        if len(prints) > 6000:
            prints = c.rng.sample(prints, 6000)
        for p in prints:
            rows, cols, size = hs[int(p[0]) - 1]
            v, w = models.wants(p[1]), models.wants(p[2])
            im = [v[i * cols:(i + 1) * cols] + [77.0] for i in range(rows)] + [[55.0] * (cols + 1)]
            calls.append(dict(op="covar", what="image", size=list(size), border=[0, 0, 0, 0], bordered=1, image=im, layout=dict(dtype="f8", how="c")))
            wants.append([w[i * size[1]:(i + 1) * size[1]] for i in range(size[0])])
    cases = []
    for x, u, w in zip(calls, c.python(calls), wants):
        if u["outcome"] == "ok":
            cases.append((x, u["out"][0]["m"], w))
    flat = lambda q: [[v for row in m for v in row] for m in q]
    for i in range(0, len(cases), 500):      # many small matrices at once
        part = cases[i:i + 500]
        n = max(len(v) for v in flat(w for _, _, w in part))
        pad = lambda q: [v + [0.0] * (n - len(v)) for v in flat(q)]
        k = scn.rel("expected", [], ins=[pad(w for _, _, w in part)], tol=1e-9, scale=10.0, note="MC_Covar, matrices from %d on" % i)
        k.update(outs=[pad(m for _, m, _ in part)], done=[x for x, _, _ in part[:1]])
        judge_relations(c, [k])
    c.notes["matrices of MC_Covar"] = len(cases)


def Y05(c):
    r = c.rng
    covar_model(c)
    judge_records(c, "TraceCovar", [covar_call(r) for _ in range(more(c, 450))], j_covar)


# ---------------------------------------------------------------- Y06
NAMES = dict(ic="TrapInstantCapture", sc="TrapSlowCapture", icco="TrapInstantCaptureContinuum", scco="TrapSlowCaptureContinuum")
MORE = dict(ROE=["pixel_bounce_kA", "pixel_bounce_kv", "pixel_bounce_omega", "pixel_bounce_gamma", "read_noise"])


def j_attributes(o):
    return {k: v if isinstance(v, int) else scn.j_nums(v) if isinstance(v, list) else scn.pair(v) for k, v in o.items()}


def j_objects(x, r, ident):
    o = dict(id=str(ident), what=x["what"], object=pycall.j_obj(x["object"]), kind="TrapInstantCapture" if x["what"] == "poissons" else r["cls"],
             out=j_attributes(r["out"]), kept=r["unchanged"])
    if x["what"] == "poisson":
        o.update(total=x["total"], drawn=j_attributes(r["drawn"]), again=j_attributes(r["again"]))
    elif x["what"] == "poissons":
        o.update(total=x["total"], drawn=scn.j_nums(r["drawn"]))
    elif x["what"] == "ellipticity":
        o["value"] = scn.pair(r["value"])
    return o


def some_roe(r, cls=None):
    cls = cls or pick(r, "ROE", "ROE", "ROEChargeInjection", "ROETrapPumping", "from_normal_roe")
    if cls == "from_normal_roe":
        return dict(cls=cls, roe=some_roe(r, pick(r, "ROE", "ROE", "ROE", "ROEChargeInjection", "ROETrapPumping", "from_normal_roe")),
                    n=pick(r, 0, r.randint(1, 3000)), given={})
    names = pycall.SIGNATURE[cls] + MORE["ROE"]
    given = {}
    for n in names:
        if r.random() < 0.5:
            continue
        given[n] = ([10 ** r.uniform(-6, 1) for _ in range(r.randint(1, 6))] if n == "dwell_times" else r.randint(0, 50) if n.startswith("prescan")
                    else pick(r, -1, r.randint(1, 4000)) if n == "overscan_start" else r.randint(1, 9) if n == "n_pumps"
                    else r.uniform(-1, 6) if n in MORE["ROE"] else r.random() < 0.5)
    o = dict(cls=cls, given=given)
    if r.random() < 0.4:       # some by position
        k = 0
        while k < len(names) and names[k] in given:
            k += 1
        if k:
            o["positional"] = names[:r.randint(1, k)]
    return o


def some_trap(r, kind=None):
    cls = NAMES[kind or pick(r, *NAMES)]
    value = dict(density=lambda: pick(r, 10 ** r.uniform(-3, 3), -10 ** r.uniform(-3, 1)), release_timescale=lambda: 10 ** r.uniform(-4, 5),
                 fractional_volume_none_exposed=lambda: r.uniform(0, 0.5), fractional_volume_full_exposed=lambda: r.uniform(0.5, 1),
                 capture_timescale=lambda: 10 ** r.uniform(-3, 2), release_timescale_sigma=lambda: r.uniform(0.01, 2))
    sig = pycall.SIGNATURE[cls]
    given = {n: value[n]() for n in sig if r.random() < 0.65}
    return pycall.obj(r, cls, given, {})


def some_ccd(r):
    names = pycall.SIGNATURE["CCDPhase"]

    def well():
        v = dict(full_well_depth=10 ** r.uniform(3, 5.5), well_notch_depth=r.uniform(0, 50), well_fill_power=r.uniform(0.1, 1.5),
                 first_electron_fill=r.uniform(0, 0.2))
        return {n: v[n] for n in names if r.random() < 0.6}
    if r.random() < 0.35:
        g = well()
        g.setdefault("full_well_depth", 10 ** r.uniform(3, 5.5))
        return dict(cls="CCD", given=g)
    n = r.randint(1, 4)
    g = dict(phases=[dict(cls="CCDPhase", given=well()) for _ in range(n)])
    if n > 1 or r.random() < 0.5:
        g["fraction_of_traps_per_phase"] = [r.uniform(0, 1) for _ in range(n)]
    return dict(cls="CCD", given={} if r.random() < 0.1 else g)


def Y06(c):
    r = c.rng
    calls = []
    for _ in range(more(c, 220)):
        calls.append(dict(op="objects", what="is", object=pick(r, some_roe, some_roe, some_trap, some_ccd)(r)))
    for _ in range(more(c, 120)):
        o = some_trap(r, "ic")
        o["given"]["density"] = pick(r, 0.0, 10 ** r.uniform(-3, 2))
        calls.append(dict(op="objects", what="poisson", object=o, total=pick(r, 1, r.randint(1, 100), r.randint(100, 20000)), seed=r.randint(0, 10 ** 9),
                          positional=int(r.random() < 0.5)))
    for _ in range(more(c, 40)):
        o = some_trap(r, "ic")
        o["given"]["density"] = 10 ** r.uniform(-2, 1.5)
        total = r.randint(1, 2000)
        calls.append(dict(op="objects", what="poissons", object=o, total=total, seed=r.randint(0, 10 ** 6), many=200))
    for _ in range(more(c, 150)):
        calls.append(dict(op="objects", what="ellipticity", object=some_trap(r, "ic")))
    for x in calls:
        x["object"].pop("shared", None)
        if "density" in x["object"]["given"] and "positional" in x["object"] and x["what"] != "is":
            x["object"].pop("positional")
    judge_records(c, "TraceObjects", calls, j_objects)
