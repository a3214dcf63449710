"""Random scenarios over the whole space of valid settings (all choices made by `rng`)."""
from . import scn


def pick(rng, *a):
    return a[rng.randrange(len(a))]


def timescale(rng, kind, tau, wide):
    """of release: of the order of a dwell time, or (wide) up to so short that nothing is left after one, or so long
    that next to nothing is released"""
    if wide and rng.random() < 0.3:
        return float("%.4g" % (10 ** (rng.uniform(-3.5, 4) if kind in ("ic", "sc") else rng.uniform(-1.3, 2))))
    return round(rng.uniform(*tau), 3)


def capture(rng, hi, wide):
    if wide and rng.random() < 0.3:
        return float("%.4g" % (10 ** rng.uniform(-4, 4)))
    return pick(rng, 0.0, round(rng.uniform(0.05, hi), 3))


def traps(rng, kinds=None, total=30.0, zero=False, surface=True, tau=(0.3, 6.0), wide=False):
    kinds = kinds or [k for k in ("ic", "sc", "icco", "scco") if rng.random() < (0.6 if k in ("ic", "sc") else 0.25)]
    if not kinds:
        kinds = [pick(rng, "ic", "sc")]
    t = {}
    for k in kinds:
        n = pick(rng, 1, 1, 2, 3) if rng.random() < 0.93 else rng.randint(4, 7) if k in ("ic", "sc") else 4
        l = []
        for _ in range(n):
            d = round(rng.uniform(0.3, total / n), 3)
            if zero and rng.random() < 0.1:
                d = 0.0
            ta = timescale(rng, k, tau, wide)
            if k == "ic":
                if surface and rng.random() < 0.3:
                    va = pick(rng, 0.0, 0.0, round(rng.uniform(0, 0.5), 3))
                    vb = pick(rng, va, round(rng.uniform(max(va, 0.05), 0.9), 3))
                    if vb == 0.0:
                        va = 0.0
                    l.append((d, ta, va, vb))
                else:
                    l.append((d, ta))
            elif k == "sc":
                l.append((d, ta, capture(rng, 3.0, wide)))
            elif k == "icco":
                l.append((d, ta, round(rng.uniform(0.1, 1.0), 2)))
            else:
                l.append((d, ta, round(rng.uniform(0.1, 1.0), 2), capture(rng, 2.0, wide and rng.random() < 0.3)))
        t[k] = l
    return scn.traps(**t)


def phase(rng, fef=False):
    fw = pick(rng, 1e4, 2000.0, 84700.0) if rng.random() < 0.85 else float("%.4g" % 10 ** rng.uniform(2.8, 5.6))
    return scn.phase(fw=fw, notch=pick(rng, 0.0, 0.0, 10.0, 96.5) if rng.random() < 0.85 else round(fw * rng.uniform(0, 0.5), 2),
                     beta=pick(rng, 1.0, 0.478, 0.8, round(rng.uniform(0.2, 1.5), 3)),
                     fef=round(rng.uniform(0, 0.05), 4) if fef and rng.random() < 0.4 else 0.0)


def roe_ccd(rng, rtype=0, nph=None, equal_dwell=False, fef=False):
    nph = nph or (pick(rng, 1, 1, 1, 2, 3, 4, 5) if rng.random() < 0.95 else rng.randint(6, 9))
    steps = nph * (2 if rtype == 2 else 1)
    if equal_dwell or rng.random() < 0.6:
        dwell = [pick(rng, 1.0, 1.0, 0.5, round(rng.uniform(0.1, 2), 3)) / nph] * steps
    else:
        dwell = [round(rng.uniform(0.05, 1.5), 3) for _ in range(steps)]
    if nph == 1:
        frac = [1.0]
    else:
        f = [rng.uniform(0.0, 1.0) for _ in range(nph)]
        if rng.random() < 0.2:
            f[rng.randrange(nph)] = 0.0
        elif rng.random() < 0.08:       # traps in one phase only
            k = rng.randrange(nph)
            f = [float(j == k) for j in range(nph)]
        frac = [x / sum(f) for x in f] if sum(f) > 0 else [1.0 / nph] * nph
    ph = phase(rng, fef)
    phs = [ph if rng.random() < 0.6 else phase(rng, fef) for _ in range(nph)]
    if nph > 1 and rng.random() < 0.25:   # a phase that clouds fill without reaching its traps
        k = pick(rng, 0, 0, rng.randrange(nph))
        phs[k] = scn.phase(84700.0, 80000.0, 0.5)
    r = scn.roe(type=rtype, dwell=dwell, prescan=0 if rtype == 2 else pick(rng, 0, 0, 0, 1, 3),
                overscan=-1 if rtype == 2 else pick(rng, -1, -1, -1, 1, 3, 5, 8), ebc=pick(rng, 1, 1, 0),
                eft=0 if rtype == 1 else pick(rng, 0, 0, 1), fra=pick(rng, 1, 1, 0), intm=pick(rng, 0, 0, 1),
                npumps=pick(rng, 1, 2, 3, 5, 8))
    return r, scn.ccd(phs, frac)


def image(rng, rows, cols, hi=3000.0, neg=False):
    style = rng.randrange(5)
    im = []
    for i in range(rows):
        row = []
        for j in range(cols):
            if style == 0:
                x = rng.uniform(0, hi)
            elif style == 1:
                x = rng.uniform(0, hi) if rng.random() < 0.3 else 0.0
            elif style == 2:
                x = rng.uniform(0, 20)
            elif style == 3:
                x = 10 ** rng.uniform(-1, 4.2)
            else:
                x = hi / 3 if i else rng.uniform(0, hi)
            if neg and rng.random() < 0.2:
                x = -rng.uniform(0, 50)
            row.append(x)
        im.append(row)
    if cols > 1 and rng.random() < 0.08:        # columns alike
        a = rng.randrange(cols)
        for j in range(cols):
            if rng.random() < 0.6:
                for row in im:
                    row[j] = row[a]
    return im


def direction(rng, rows, rtype=0, nph=None, kinds=None, prune=False, window=True, offset=True, express=None, fef=False,
              ebc=None, cost=None, zero=False):
    r, c = roe_ccd(rng, rtype, nph, fef=fef)
    if ebc is not None:
        r["ebc"] = ebc
    n = rows
    if rtype == 2:
        n = r["npumps"]
    ex = express if express is not None else pick(rng, 0, 0, 1, 1, 2, 3, 4, n - 1 if n > 1 else 1, n, n + 2)
    w0, w1 = 0, -1
    if window and rtype != 2 and rng.random() < 0.3:
        w0 = rng.randrange(rows)
        w1 = rng.randint(w0 + 1, rows)
    off = 0 if (rtype == 2 or not offset) else pick(rng, 0, 0, 0, 1, 2, 5)
    t = traps(rng, kinds, zero=zero)
    if rng.random() < 0.12:     # more traps than there are electrons for
        f = 10 ** rng.uniform(0.5, 2.3)
        for l in t.values():
            for x in l:
                x["d"] = round(x["d"] * f, 3)
    return scn.dirn(r, c, t, express=ex, offset=off, w0=w0, w1=w1,
                    prune_n=pick(rng, 1e-10, 1e-3, 0.5, -0.3) if prune else 1e-10,
                    prune_f=pick(rng, 1, 2, 3) if prune else 0, null_empty=pick(rng, 1, 1, 0))


def any_image(rng, *a, **kw):
    """a random scenario of add_cti / remove_cti / clock_charge_in_one_direction, that runs in seconds"""
    while True:
        s = one_image(rng, *a, **kw)
        if weight(s) <= (300e3 if any(d and d["traps"]["scco"] for d in (s["P"], s["S"])) else 5e6):
            return s


def one_image(rng, maxr=7, maxc=4, mode=None, both=None, rtype=None, minr=1, minc=1, **kw):
    mode = mode if mode is not None else pick(rng, 0, 1, 1, 1, 2)
    rt = rtype if rtype is not None else pick(rng, 0, 0, 0, 0, 1, 2)
    rows = rng.randint(minr, maxr)
    cols = rng.randint(minc, maxc)
    if rt == 2:
        rows_ = pick(rng, 1, 1, rows)
        P = direction(rng, rows_, 2, window=False, **kw)
        rows = rows_
        if rows > 1:
            P["w0"] = rng.randrange(rows)
            P["w1"] = P["w0"] + 1
    else:
        P = direction(rng, rows, rt, **kw)
    S = None
    if mode != 0:
        b = both if both is not None else pick(rng, 0, 0, 1, 2)
        if b and rt != 2:
            S = direction(rng, cols, pick(rng, 0, 0, 1), **kw)
            if b == 2:
                P = None
    fef = any(p["fef"] > 0 for d in (P, S) if d for p in d["ccd"]["phases"])
    im = image(rng, rows, cols, neg=not fef and rng.random() < 0.25)
    s = scn.img(im, P, S, mode=mode, iters=pick(rng, 1, 2, 3) if mode == 2 else 1, neg=pick(rng, 1, 1, 0) if not fef else 0,
                threads=pick(rng, 1, 2, 4))
    if mode == 0 and cols > 1 and rng.random() < 0.4:
        s["c0"] = rng.randrange(cols)
        s["c1"] = rng.randint(s["c0"] + 1, cols)
    return s


def varied(rng, s):
    """the same scenario but for one thing"""
    while True:
        x = scn.clone(s)
        ds = [d for d in (x["P"], x["S"]) if d]
        d = rng.choice(ds)
        sp = [t for l in d["traps"].values() for t in l]
        f = round(rng.uniform(0.3, 3.0), 3)
        what = pick(rng, "trap", "trap", "trap", "trap", "dwell", "dwell", "image", "rows", "ccd", "setting", "express",
                    "offset", "cut", "mode")
        if what in ("trap", "cut") and len(sp) < (1 if what == "trap" else 2):
            continue
        if what == "trap":
            t = rng.choice(sp)
            k = rng.choice([k for k in t if k in ("d", "tau", "sig", "tc") and t[k] > 0])
            t[k] = round(t[k] * (f if k != "sig" else min(f, 1.2)), 4) or 0.01
        elif what == "dwell":
            d["roe"]["dwell"] = [v * f for v in d["roe"]["dwell"]]
        elif what == "image":
            x["image"] = [[v * f for v in row] for row in x["image"]]
        elif what == "rows":
            if d["roe"]["type"] == 2 or any(e["w1"] != -1 for e in ds):
                continue
            x["image"] = x["image"] + [list(row) for row in x["image"][:rng.randint(1, 3)]]
        elif what == "ccd":
            p = rng.choice(d["ccd"]["phases"])
            k = pick(rng, "beta", "fw", "notch")
            p[k] = round(p[k] * f, 4) if k != "notch" else round(p["fw"] * rng.uniform(0, 0.4), 2)
        elif what == "setting":
            if d["roe"]["type"] != 0:
                continue
            k = pick(rng, "ebc", "eft", "fra", "intm", "prescan", "overscan")
            d["roe"][k] = rng.randint(1, 4) if k in ("prescan", "overscan") else 1 - d["roe"][k]
        elif what == "express":
            d["express"] = rng.randint(0, 4)
        elif what == "offset":
            if d["roe"]["type"] == 2:
                continue
            d["offset"] = rng.randint(0, 6)
        elif what == "cut":
            k = rng.choice([k for k in d["traps"] if d["traps"][k]])
            d["traps"][k] = d["traps"][k][1:]
        else:
            if x["mode"] == 0:
                continue
            x["mode"] = 3 - x["mode"]
            x["iters"] = pick(rng, 1, 2) if x["mode"] == 2 else 1
        if x != s and weight(x) <= 6e6:
            return x


def brink(ph, dens):
    """cloud sizes that just fill the traps that they reach, with `dens` traps per pixel"""
    def lack(n):
        v = min(max((n - ph["notch"]) / (ph["fw"] - ph["notch"]), 0.0), 1.0) ** ph["beta"]
        return dens * v - n
    out = []
    xs = sorted([10 ** (k / 4.0) for k in range(-12, 22)] + [ph["notch"] * (1 + 10 ** (k / 2.0)) for k in range(-12, 4)])
    for a, b in zip(xs, xs[1:]):
        if (lack(a) > 0) != (lack(b) > 0):
            for _ in range(40):
                m = (a + b) / 2
                if (lack(a) > 0) != (lack(m) > 0):
                    b = m
                else:
                    a = m
            out.append(a)
    return out


def manager(rng, kind=None, nops=None, surface=True, zero=True, prune=True, uniform=None, fef=False, lean=None,
            store=True, species=None, wide=True, tide=None):
    """a random history of one trap manager; lean: more traps than electrons, for the most part; tide: clouds rise and
    fall in turn, with idle times between"""
    kind = kind or pick(rng, "ic", "sc", "icco", "scco")
    lean = rng.random() < 0.25 if lean is None else lean
    total = 10 ** (rng.uniform(1.5, 4.5) if lean else rng.uniform(0.3, 3.3))
    t = traps(rng, [kind], total=total, zero=zero, surface=surface, wide=wide)
    if species:
        while len(t[kind]) != species:
            t = traps(rng, [kind], total=total, zero=zero, surface=surface, wide=wide)
    nops = nops or rng.randint(2, 14)
    ph = phase(rng, fef)
    if lean and rng.random() < 0.7:
        ph["notch"] = 0.0
    frac = pick(rng, 1.0, 1.0, 0.5, round(rng.uniform(0.05, 1), 3))
    hi = pick(rng, ph["fw"] * 1.3, total, total * 3, 100.0)
    tight = [y for q in (1.0, 0.9, 0.6, 0.3, 0.1) for y in brink(ph, q * frac * sum(x["d"] for x in t[kind]))]
    ops, stored = [], False
    held = []

    def close():
        n = pick(rng, *tight)
        n0 = ph["notch"] if n > ph["notch"] else 0.0
        return n0 + (n - n0) * rng.uniform(0.5, 1.2)
    tide = rng.random() < 0.3 if tide is None else tide
    while len(ops) < nops:
        r = rng.random()
        if tide and r < 0.8:
            k, q = rng.randint(1, 4), rng.randrange(5)
            x = sorted(rng.uniform(0, hi) for _ in range(k))
            if q == 1:
                x.reverse()
            elif q == 2:
                x = [0.0 if rng.random() < 0.6 or fef else -rng.uniform(0, 50)] * k
            elif q == 3:
                x = [close()] if tight else x[:1]
            elif q == 4:           # levels laid down, overrun, emptied and then grazed
                x.reverse()
                x = x + [x[0] * rng.uniform(1, 1.5)] + [0.0 if fef else pick(rng, 0.0, -total)] * rng.randint(0, 10) + [close() if tight else x[-1]]
            ops += [("t", n) for n in x]
            continue
        if prune and r < 0.1:
            ops.append(("p", pick(rng, 1e-10, 0.05, 1.0, total / 20, -0.05, -total / 30)))
        elif store and r < 0.17:
            ops.append(("s",))
            stored = True
        elif store and r < 0.24 and stored:
            ops.append(("r",))
        elif store and r < 0.27:
            ops.append(("x",))
        else:
            q = rng.random()
            if tight and rng.random() < (0.5 if lean else 0.1):
                n = close()
            elif q < 0.15:
                n = 0.0
            elif q < 0.3 and held:
                n = pick(rng, *held)
            elif q < 0.5:
                n = rng.uniform(0, min(20.0, hi))
            elif q < 0.55 and not fef:
                n = -rng.uniform(0, 5)
            else:
                n = rng.uniform(0, hi)
            held.append(n)
            ops.append(("t", n))
    return scn.mgr(kind, t, ops, ph, dwell=pick(rng, 1.0, 1.0 / 3, round(rng.uniform(0.1, 2), 3)) if not wide or rng.random() < 0.9 else float("%.4g" % 10 ** rng.uniform(-3, 2)), frac=frac)


def transfers(d, rows):
    """number of transfers of a column in this direction (upper estimate), and passes"""
    r = d["roe"]
    w1 = d["w1"] if d["w1"] >= 0 else rows
    nr = w1 - d["w0"]
    n = r["npumps"] if r["type"] == 2 else rows + d["offset"] + r["prescan"]
    if r["type"] == 1 and r["overscan"] >= 0:
        n = max(0, r["prescan"] + r["overscan"] - 1)
    e = d["express"] or n
    p = min(e, n)
    if r["eft"] and r["type"] != 1:
        p = max(p, n)
    return p * nr, p


def cost(s):
    """rough cost of running a scenario through the specification"""
    rows, cols = len(s["image"]), len(s["image"][0])
    total = 0.0
    for d, n, c in ((s["P"], rows, cols), (s["S"], cols, rows)):
        if d is None:
            continue
        t, p = transfers(d, n)
        steps, nph = len(d["roe"]["dwell"]), len(d["ccd"]["phases"])
        col = 1 if d["roe"]["ebc"] or d["roe"]["type"] == 2 else c
        dw = t * steps
        mem = col * n * steps * (p if d["roe"]["eft"] or d["roe"]["type"] == 2 else 1)
        sp = 0.0
        for k, l in d["traps"].items():
            if l:
                lev = (2.0 if k in ("sc", "scco") else 0.5) * mem
                sp += len(l) * (3 + lev / 2) + 2
        total += c * dw * nph * sp
    return total * (s["iters"] if s["mode"] == 2 else 1)


def weight(s):
    """captures and releases of all species of a scenario"""
    w = 0
    for d, n, c in ((s["P"], len(s["image"]), len(s["image"][0])), (s["S"], len(s["image"][0]), len(s["image"]))):
        if d:
            t, p = transfers(d, n)
            if d["roe"]["eft"]:
                t *= 2
            w += c * t * len(d["roe"]["dwell"]) * len(d["ccd"]["phases"]) * sum(len(l) * (1 if k in ("ic", "icco") else 2) for k, l in d["traps"].items())
    return w * (s["iters"] if s["mode"] == 2 else 1)


def tall(rng, most=3000, **kw):
    """an image of a column (or row) or two as long as real ones are, or nearly"""
    while True:
        n = rng.randint(40, 400)
        kw["express"] = pick(rng, 1, 1, 2, 3, 5)
        if rng.random() < 0.7:
            s = any_image(rng, n, 2, minr=n, both=0, **kw)
        else:
            s = any_image(rng, 2, n, minc=n, both=2, mode=1, **{k: v for k, v in kw.items() if k != "mode"})
        if most / 30 <= weight(s) <= most and max(len(s["image"]), len(s["image"][0])) >= 40:
            return s


def wide(rng, most=1500, **kw):
    """an image of many columns, or an image read along rows with many rows, each short"""
    while True:
        n = rng.randint(12, 90)
        kw["express"] = pick(rng, 0, 1, 2)
        if rng.random() < 0.7:
            s = any_image(rng, 4, n, minc=n, both=0, **kw)
        else:
            s = any_image(rng, n, 4, minr=n, both=2, mode=1, **{k: v for k, v in kw.items() if k != "mode"})
        s["threads"] = pick(rng, 1, 3, 5, 8)
        if most / 30 <= weight(s) <= most and max(len(s["image"]), len(s["image"][0])) >= 12:
            return s


def instrument(rng, rows):
    """clocking as instruments have it: power-law wells with a notch, a few species, thousands of transfers before the
    first row and few passes, pruning as by default"""
    ph = scn.phase(*pick(rng, (84700.0, 96.5, 0.478), (2e5, 0.0, 0.58), (1e5, 50.0, 0.8)))
    t = {}
    for k in pick(rng, ["ic"], ["ic"], ["sc"], ["ic", "sc"], ["icco"], ["ic", "scco"]):
        t[k] = []
        for _ in range(rng.randint(1, 6 if k in ("ic", "sc") else 2)):
            x = [round(rng.uniform(0.01, 3.0), 4), float("%.4g" % 10 ** rng.uniform(-0.3, 1.5))]
            if k in ("icco", "scco"):
                x.append(round(rng.uniform(0.1, 0.6), 2))
            if k in ("sc", "scco"):
                x.append(pick(rng, 0.0, 0.02, 0.2))
            t[k].append(tuple(x))
    nph = pick(rng, 1, 1, 1, 3)
    d = scn.dirn(scn.roe(dwell=[1.0 / nph] * nph, prescan=pick(rng, 0, 0, 24), overscan=pick(rng, -1, -1, -1, rows - 3), intm=pick(rng, 0, 0, 1)),
                 scn.ccd([ph] * nph, [1.0] if nph == 1 else [0.5, 0.2, 0.3]), scn.traps(**t), express=pick(rng, 1, 2, 3, 5),
                 offset=pick(rng, 0, 100, 1000, 2048 - rows), prune_n=pick(rng, 1e-10, 1e-4), prune_f=pick(rng, 20, 20, 7),
                 w0=pick(rng, 0, 0, 2))
    d["w1"] = pick(rng, -1, -1, rows - 1)
    return d


def real(rng, most=4000, mode=None, both=False):
    """images as instruments take them: sky and noise under a few bright pixels"""
    while True:
        rows, cols = rng.randint(8, 40), rng.randint(1, 3)
        if both:
            rows, cols = rng.randint(5, 12), rng.randint(5, 12)
        d = instrument(rng, rows)
        sky = pick(rng, 0.0, 0.0, 30.0, 100.0)
        im = [[sky + (rng.gauss(0, 4) if sky else 0.0) for _ in range(cols)] for _ in range(rows)]
        for _ in range(rng.randint(2, 6)):
            im[rng.randrange(rows)][rng.randrange(cols)] += 10 ** rng.uniform(1.5, 5.2)
        m = mode if mode is not None else pick(rng, 1, 1, 2)
        P, S = (d, None) if rng.random() < 0.7 else (None, d)
        if both:
            P, S = d, instrument(rng, cols)
        elif S:
            im = [list(x) for x in zip(*im)]
        s = scn.img(im, P, S, mode=m, iters=pick(rng, 1, 3, 5) if m == 2 else 1, neg=pick(rng, 1, 1, 0), threads=pick(rng, 1, 2))
        if weight(s) <= most:
            return s


def batch(rng, make, total, each=None, n=None, maxn=100000):
    """scenarios from make() until their summed cost reaches `total` (or n of them)"""
    out, used = [], 0.0
    tries = 0
    each = each or total / 4
    while used < total and len(out) < (n or maxn) and tries < 20 * maxn:
        tries += 1
        s = make()
        c = cost(s)
        if c > each:
            continue
        out.append(s)
        used += c
    return out
