"""C14 (conformal intervals), C15 (saved conformalized models)."""
import lib, zoo
from statistics import median

CFG = "INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nCONSTANTS Depth={d} MaxN={n} MaxV={v} Levels={{{lv}}} Pairs={p}\n"
INV = "INVARIANT Coherent\nINVARIANT Covers\nINVARIANT Nested\nPROPERTY Refuses\nPROPERTY Answers\nPROPERTY Independent\n"
HOWS = ["file", "zip", "nosuffix", "path", "io", "dict", "twice"]


def level_ok(n, a):
    """the number of samples to cover must not hang on rounding"""
    r = (n + 1) * (1000 - a) % 1000
    return a % 125 == 0 or 5 < r < 995


def exact_cal(rng, k):
    n = rng.randrange(3, 12)
    xs = []
    while len(xs) < k:
        x = [rng.choice([1, 3, 5]) for _ in range(n)]
        s = [v * v for v in x]
        mad = median(abs(v - median(s)) for v in s)
        if mad in (1, 2, 4, 8, 16, 32):
            xs.append(x)
    return dict(n=n, x=xs, scores=[[rng.randrange(0, 9) for _ in range(n)] for _ in range(k)],
                sign=[[rng.choice([-1, 1]) for _ in range(n)] for _ in range(k)])


def gen_model(rng):
    """-> (model, input type, names of the categorical leaves)"""
    cats = []
    if rng.random() < .45:
        tin = {"d": [["a", zoo.leaf(rng.choice([1, 2, 3]))], ["b", zoo.leaf(rng.choice([1, 2]))]]}
        if rng.random() < .7:
            cats = rng.choice([["b"], ["b"], ["a", "b"]])
        pre = [{"m": "ConcatenateLeaves", "kw": {}}]
    else:
        tin, pre = zoo.leaf(rng.choice([1, 2, 3])), []
    out = rng.choice([[1], [2], [3], [2, 2], [1, 3], [2, 1, 2]])
    act = rng.choice(["Tanh", "SiLU", "Softplus"])
    mods = pre + [{"m": "LinearNN", "kw": {"out_features": rng.choice([2, 4]), "init_magnitude": 0.5, "activation": {"m": act, "kw": {}}}},
                  {"m": "LinearNN", "kw": {"out_features": zoo.size(out), "init_magnitude": 0.5}}]
    if len(out) > 1:
        mods.append({"m": "Reshape", "kw": {"shape": {"tup": out}}})
    return {"m": "seq", "kind": rng.choice("lud"), "mods": mods}, tin, cats


def gen_opts(rng, cats):
    o = {}
    if rng.random() < .6:
        o["train"] = rng.randrange(3, 12)
        if rng.random() < .3:
            o["xunc"] = True
        for k in ("input_sensitivity", "distance_sensitivity"):
            if rng.random() < .25:
                o[k] = False
    if rng.random() < .3:
        o["yunc"] = True
    if rng.random() < .45:
        o["bias"] = rng.choice(["all", "strata"] if cats else ["all"])
    return o


def finish(rng, hist, exact):
    """adds models, data sets and levels to a history"""
    s = dict(exact=exact, hist=hist, alpha=rng.choice([250, 317, 125, 50]), nnq=rng.choice([0.5, 0.25]), cats=[],
             name=rng.choice([None, "conf", "a model"]))
    if exact:
        s["tin"], k = rng.choice([(zoo.leaf(1), 1), (zoo.leaf(2), 2), (zoo.leaf(4), 4), (zoo.leaf(2, 2), 4),
                                  ({"d": [["a", zoo.leaf(1)], ["b", zoo.leaf(1)]]}, 2), ({"l": [zoo.leaf(2), zoo.leaf(1, 2)]}, 4)])
        s["cals"] = {c: exact_cal(rng, k) for c in ("1", "2")}
    else:
        s["model"], s["tin"], s["cats"] = gen_model(rng)
        s["cals"] = {c: dict(n=rng.randrange(6, 26), seed=rng.randrange(10 ** 6), opts=gen_opts(rng, s["cats"])) for c in ("1", "2")}
        if rng.random() < .2:
            s["mbs"] = rng.randrange(1, 6)
    ns = [c["n"] for c in s["cals"].values()]
    pool = [a for a in (10, 50, 100, 125, 200, 250, 317, 375, 500, 625, 750, 800, 900, 950) if all(level_ok(n, a) for n in ns)]
    if not all(level_ok(n, s["alpha"]) for n in ns):
        s["alpha"] = 250
    fav = rng.sample(pool, min(3, len(pool)))
    for h in hist:
        if h["op"] == "ask":
            k = rng.choice([0, 1, 1, 1, 2, 3])
            h["levels"] = [rng.choice(fav + [rng.choice(pool)]) for _ in range(k)]
            h["form"] = rng.choice(["list", "tuple", "array"])
            h["pts"] = rng.choice(["cal", "cal", "new"]); h["predict"] = rng.random() < .2
        if h["op"] == "pass":
            h.setdefault("how", rng.choice(HOWS))
        if h["op"] == "badcal":
            h["bad"] = rng.choice("Yn")
    return s


def rand_hist(rng, n, passes):
    h = [dict(op="new", s=1, a="")]
    alive = {1}
    while len(h) < n:
        s = rng.choice(sorted(alive))
        x = rng.random()
        if x < passes:
            t = rng.choice([q for q in (1, 2, 3) if q != s]); alive.add(t)
            h.append(dict(op="pass", s=s, t=t, a=""))
        elif x < passes + .1 and len(alive) < 3:
            t = min({1, 2, 3} - alive); alive.add(t)
            h.append(dict(op="new", s=t, a=""))
        elif x < passes + .15:
            h.append(dict(op="badcal", s=s, a=rng.choice("12")))
        elif x < passes + .4:
            h.append(dict(op="cal", s=s, a=rng.choice("12")))
        else:
            h.append(dict(op="ask", s=s, a=""))
    return h


def run(ck, passes):
    rng = ck.rng
    lib.model_check("MCConformal", CFG.format(d=ck.pick(4, 5), n=ck.pick(3, 4), v=3, lv="100, 317, 500, 900", p="FALSE") + INV, ck.stats)
    if ck.thorough:
        lib.model_check("MCConformal", CFG.format(d=6, n=2, v=2, lv="100, 500, 900", p="FALSE") + INV, ck.stats)
    beh, total = lib.behaviours("MCConformal", CFG.format(d=6, n=1, v=1, lv="200, 500", p="TRUE") + "INVARIANT Dump\n", ck.stats)
    ck.stats.extra["spec_behaviours_enumerated"] = total
    want = (lambda b: any(h["op"] == "pass" for h in b)) if passes > .2 else (lambda b: sum(h["op"] == "cal" for h in b) >= 2)
    beh = [b for b in beh if b[-1]["op"] == "ask" and sum(h["op"] == "ask" for h in b) >= 2 and any(h["op"] == "cal" for h in b) and want(b)]
    scns = [finish(rng, b, rng.random() < .6) for b in rng.sample(beh, ck.pick(28, 900))]
    scns += [finish(rng, rand_hist(rng, rng.randrange(6, 13), passes), rng.random() < .4) for _ in range(ck.pick(28, 900))]
    ck.run_and_judge("drv_conf", "ConformalTrace", scns, key=lambda s, r: s.get("finding"))


def c14(ck):
    run(ck, .1)


def c15(ck):
    run(ck, .35)
