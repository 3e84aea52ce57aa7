"""C13: scalers."""
import lib, zoo

CFG = "INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nCONSTANTS Depth={d} MaxN={n} MaxV={v} Pairs={p}\n"
INV = "INVARIANT Inverts\nINVARIANT Documented\nPROPERTY Last\n"
HOWS = ["file", "zip", "nosuffix", "path", "pathzip", "io", "dict", "twice"]
RANGES = [(0, 1), (-1, 1), (-1, 2), (3, 1), (-4, 0), (2, 5)]


def perfect(col):
    v = len(col) * sum(x * x for x in col) - sum(col) ** 2
    return int(v ** .5 + .5) ** 2 == v


def quant(srt, q):
    p = (len(srt) - 1) * q
    i, f = divmod(p, 100)
    return 100 * srt[i] + (f * (srt[i + 1] - srt[i]) if f else 0)


def settled(col, o):
    """whether the scale is zero must not hang on the rounding of interpolated quantiles"""
    if o["k"] != "rob" or not o["s"] or len(col) == 1 or (o["ql"], o["qh"]) == (0, 100):
        return True
    return quant(sorted(col), o["ql"]) != quant(sorted(col), o["qh"])


def column(rng, n, k):
    if k == "hot":
        return [rng.randrange(0, 2) for _ in range(n)]
    if rng.random() < .12:
        return [rng.randrange(-6, 7)] * n
    while True:
        c = [rng.randrange(-9, 10) for _ in range(n)]
        if k != "std" or perfect(c):
            return c


def gen_type(rng, deep=2):
    x = rng.random()
    if deep == 0 or x < .4:
        return zoo.leaf(*rng.choice([[1], [2], [3], [2, 2], [1, 2], [2, 1, 2]]))
    kids = [gen_type(rng, deep - 1) for _ in range(rng.choice([1, 2, 2, 3]))]
    if x < .75:
        return {"d": [[k, t] for k, t in zip(sorted(rng.sample(["a", "b", "c", "ab", "10", "9"], len(kids))), kids)]}
    return {"l" if x < .88 else "u": kids}


def comps(t):
    return zoo.size(t["s"])


def gen_simple(rng, t, scalar=False):
    """a scaler for data of type t -> (description, options per leaf per component)"""
    ls = [x for _, x in zoo.leaves(t)]
    k = rng.choice(["Standard", "MinMax", "MinMax", "Robust", "Robust", "OneHot"])
    if k == "Standard":
        return dict(cls=k), lambda ls: [[dict(k="std")] * comps(x) for x in ls]
    if k == "OneHot":
        return dict(cls=k), lambda ls: [[dict(k="hot")] for _ in ls]
    form = rng.choice(["tuple", "list", "jarr", "default"] if scalar else ["tuple", "list", "jarr", "default", "tree", "arr", "half", "treenone"])
    pairs = RANGES if k == "MinMax" else [(25, 75), (10, 90), (0, 100), (30, 55), (5, 60)]
    one = rng.choice(pairs)
    if form == "default":
        one = (0, 1) if k == "MinMax" else (25, 75)
    if form in ("tuple", "list") and rng.random() < .12:
        one = rng.choice([(None, one[1]), (one[0], None), (None, None)])
    if form in ("tuple", "list", "jarr", "default"):
        rg = None
    elif form == "half":     # one bound for all, the other for each part
        rg = []
        for x in ls:
            b = rng.choice([h for h in ((2, 3, 7) if k == "MinMax" else (60, 75, 90))])
            rg.append([(0 if k == "MinMax" else 20, b)] * comps(x))
    elif form in ("tree", "treenone"):
        rg = []
        for x in ls:
            p = rng.choice(pairs)
            if form == "treenone" and rng.random() < .5:
                p = rng.choice([(None, p[1]), (None, None), (p[0], None)])
            rg.append([p] * comps(x))
    else:
        rg = [[rng.choice(pairs) for _ in range(comps(x))] for x in ls]
    d = dict(cls=k, form=form, one=one, rg=rg, ints=rng.random() < .3)
    if k == "Robust":
        d["c"] = rng.choice([True, True, False]); d["s"] = rng.choice([True, True, True, False])
        if not scalar and rng.random() < .3:
            d["c"] = [rng.random() < .5 for _ in ls]
        if not scalar and rng.random() < .3:
            d["s"] = [rng.random() < .5 for _ in ls]

    def opts(ls):
        out = []
        for i, x in enumerate(ls):
            row = []
            for j in range(comps(x)):
                lo, hi = d["one"] if rg is None else rg[i][j]
                if k == "MinMax":
                    row.append(dict(k="none") if lo is None or hi is None else dict(k="mm", lo=lo, hi=hi))
                else:
                    c = d["c"] if isinstance(d["c"], bool) else d["c"][i]
                    s = d["s"] if isinstance(d["s"], bool) else d["s"][i]
                    no = lo is None or hi is None
                    row.append(dict(k="rob", ql=0 if no else lo, qh=0 if no else hi, c=c, s=bool(s and not no)))
            out.append(row)
        return out
    return d, opts


def gen_scaler(rng):
    """-> (scaler, {data set: type}, {data set: options})"""
    x = rng.random()
    t = gen_type(rng)
    lv = lambda t: [y for _, y in zoo.leaves(t)]
    if x < .35:
        d, o = gen_simple(rng, t, scalar=True)
        u = gen_type(rng)
        return d, {"1": t, "2": t, "3": u}, {"1": o(lv(t)), "2": o(lv(t)), "3": o(lv(u))}
    if x < .7:
        d, o = gen_simple(rng, t)
        o = o(lv(t))
        return d, {"1": t, "2": t}, {"1": o, "2": o}
    if x < .74:
        o = [[dict(k="off")] * comps(y) for y in lv(t)]
        return dict(cls="Mixed", parts=None), {"1": t, "2": t}, {"1": o, "2": o}

    def mixed(t, depth):
        """a tree of scalers over a prefix of t -> (parts, options)"""
        if zoo.is_leaf(t) or (depth > 0 and rng.random() < .3):
            if rng.random() < .2:
                return None, [[dict(k="off")] * comps(y) for y in lv(t)]
            if rng.random() < .1 and not zoo.is_leaf(t):
                p, o = mixed(t, 0)
                return dict(cls="Mixed", parts=p), o
            d, o = gen_simple(rng, t)
            return d, o(lv(t))
        items = t["d"] if "d" in t else [[None, y] for y in t.get("l", t.get("u"))]
        res = [mixed(y, depth + 1) for _, y in items]
        return {"kids": [[k, r[0]] for (k, _), r in zip(items, res)], "kind": "d" if "d" in t else "l" if "l" in t else "u"}, sum((r[1] for r in res), [])
    p, o = mixed(t, 0)
    if p is None:
        p, o = dict(cls="Standard"), [[dict(k="std")] * comps(t)]
    return dict(cls="Mixed", parts=p), {"1": t, "2": t}, {"1": o, "2": o}


def gen_data(rng, t, opts):
    n = rng.choice([1, 2, 4, 5, 6])
    if all(o[0]["k"] != "std" for o in opts) and rng.random() < .3:
        n = 3            # three values never have a rational deviation
    out = []
    for (_, x), o in zip(zoo.leaves(t), opts):
        cols = []
        while len(cols) < comps(x):
            c = column(rng, n, o[0]["k"])
            if o[0]["k"] == "hot" or settled(c, o[len(cols)]):
                cols.append(c)
        out.append([list(r) for r in zip(*cols)])
    return out


def finish(rng, hist):
    sc, types, opts = gen_scaler(rng)
    data = {a: gen_data(rng, types[a], opts[a]) for a in types}
    hot = any(r[0]["k"] == "hot" for o in opts.values() for r in o)
    fit, out = {}, []
    for h in hist:
        h = dict(h)
        if "3" in types and h["op"] == "fit" and rng.random() < .3:
            h["a"] = "3"
        if h["op"] == "fit":
            fit[h["s"]] = h["a"]; h["how"] = rng.choice(["fit", "fit", "fit_transform"]); h["y"] = rng.random() < .1
        if h["op"] == "pass":
            fit[h["t"]] = fit.get(h["s"]); h["how"] = rng.choice(HOWS)
        if h["op"] == "new":
            fit[h["s"]] = None
        if h["op"] == "use":
            f = fit.get(h["s"])
            h["a"] = "3" if f == "3" else rng.choice("12")
        out.append(h)
    one = rng.choice([1, 1, 1, 64, 4096])
    return dict(sc=sc, types=types, opts=opts, data=data, hist=out, one=one, dtype="i4" if one == 1 and not hot and sc["cls"] != "Mixed" and rng.random() < .15 else "f4")


def rand_hist(rng, n):
    h, alive = [dict(op="new", s=1, a="")], {1}
    while len(h) < n:
        s, x = rng.choice(sorted(alive)), rng.random()
        if x < .2:
            t = rng.choice([q for q in (1, 2, 3) if q != s]); alive.add(t)
            h.append(dict(op="pass", s=s, t=t, a=""))
        elif x < .25 and len(alive) < 3:
            t = min({1, 2, 3} - alive); alive.add(t)
            h.append(dict(op="new", s=t, a=""))
        elif x < .55:
            h.append(dict(op="fit", s=s, a=rng.choice("12")))
        else:
            h.append(dict(op="use", s=s, a=""))
    h.append(dict(op="use", s=rng.choice(sorted(alive)), a=""))
    return h


def c13(ck):
    rng = ck.rng
    lib.model_check("MCScalers", CFG.format(d=ck.pick(4, 5), n=3, v=ck.pick(3, 4), p="FALSE") + INV, ck.stats)
    beh, total = lib.behaviours("MCScalers", CFG.format(d=6, n=1, v=1, p="TRUE") + "INVARIANT Dump\n", ck.stats)
    ck.stats.extra["spec_behaviours_enumerated"] = total
    beh = [b for b in beh if b[-1]["op"] == "use" and any(h["op"] == "fit" for h in b)]
    scns = [finish(rng, b) for b in rng.sample(beh, ck.pick(200, 3000))]
    scns += [finish(rng, rand_hist(rng, rng.randrange(5, 14))) for _ in range(ck.pick(200, 5000))]
    ck.run_and_judge("drv_scal", "ScalersTrace", scns, key=lambda s, r: s.get("finding"))
