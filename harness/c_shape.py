"""C10: accepted and declared shapes."""
import lib, zoo

CFG = "INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nCONSTANTS Depth={d} Types=3\n"
INV = "PROPERTY Only\nPROPERTY Until\nPROPERTY Refused\n"
POLY = ["Act", "Flatten", "Comment", "Meter", "Noise", "TreeFlatten"]
KINDS = list(zoo.GENS)


def key(t):
    return str(t)


def distort(rng, t):
    """a type that differs from t"""
    if zoo.is_leaf(t):
        x, s = rng.random(), list(t["s"])
        if x < .45 and s:
            i = rng.randrange(len(s)); s[i] += rng.choice([1, 1, -1]) if s[i] > 1 else 1
            return {"s": s, "c": t["c"]}
        if x < .6:
            return {"s": s + [1], "c": t["c"]}
        if x < .7:
            return {"s": [1] + s, "c": t["c"]}
        if x < .8 and len(s) > 1 and s[::-1] != s:
            return {"s": s[::-1], "c": t["c"]}
        if x < .85 and len(s) > 1:
            return {"s": [zoo.size(s)], "c": t["c"]}
        return rng.choice([{"l": [t]}, {"d": [["a", t]]}, {"u": [t]}, {"l": [t, t]}])
    x = rng.random()
    k = "d" if "d" in t else "l" if "l" in t else "u"
    kids = list(t[k])
    if x < .5:
        i = rng.randrange(len(kids))
        if k == "d":
            kids[i] = [kids[i][0], distort(rng, kids[i][1])]
        else:
            kids[i] = distort(rng, kids[i])
        return {k: kids}
    if x < .6 and len(kids) > 1:
        return {k: kids[:-1]}
    if x < .7:
        return {k: kids + ([["zz", zoo.leaf(1)]] if k == "d" else [kids[-1]])}
    if x < .8 and k == "d":
        return {k: sorted([[kids[0][0] + "x", kids[0][1]]] + kids[1:])}
    if x < .9 and k != "d":
        return {"u" if k == "l" else "l": kids}
    return {"l": [t]} if rng.random() < .5 else {"d": [["a", t]]}


def canon(t):
    t = zoo.untag(t)
    if zoo.is_leaf(t):
        return ["s"] + list(t["s"])
    if "d" in t:
        return ["d"] + [[k, canon(x)] for k, x in sorted(t["d"])]
    k = "l" if "l" in t else "u"
    return [k] + [canon(x) for x in t[k]]


def scenario(rng, hist, kind=None):
    poly = rng.random() < .4
    while True:
        if poly:
            t1 = zoo.gen_type(rng); cur, ms = t1, []
            for _ in range(rng.choice([1, 2, 3])):
                r = zoo.gen_module(rng, rng.choice(POLY), cur)
                if r is None:
                    continue
                ms.append(r[0]); cur = zoo.untag(r[2])
            if not ms:
                continue
            d, tin, tout = zoo.wrap(rng, ms), t1, cur
            if rng.random() < .3:
                d = zoo.wrap(rng, [d])
            t2 = zoo.gen_type(rng)
            if canon(t2) == canon(t1):
                continue
            if any(len(x["s"]) < 1 for _, x in zoo.leaves(t2)):
                continue
        else:
            d, tin, tout = zoo.gen_model(rng, first=kind)
            tin = zoo.untag(tin)
            t2 = distort(rng, tin)
        break
    t3 = distort(rng, rng.choice([tin, tin, t2]))
    while canon(t3) in (canon(tin), canon(t2)):
        t3 = distort(rng, t3)
    if canon(t2) == canon(tin):
        t2 = distort(rng, t2)
    out, fixed = [], "'ns'" in str(d)        # NonSequentialModel refuses to be compiled for another shape
    for h in hist:
        h = dict(h)
        if h["op"] == "compile" and (not poly or fixed):
            h["j"] = 1
        if h["op"] == "call":
            h["n"] = rng.choice([1, 2, 3, 5])
            if h["w"] == "grad":
                h["w"] = rng.choice(["grad_input", "grad_params"])
        out.append(h)
    return dict(model=d, types=[tin, t2, t3], poly=poly, expect=canon(tout), hist=out, seed=rng.randrange(1000))


def rand_hist(rng, n):
    h = [dict(op="declare", j=1, w="")] if rng.random() < .5 else []
    while len(h) < n:
        x = rng.random()
        comp = [q for q in h if q["op"] in ("compile", "edit")]
        ready = bool(comp) and comp[-1]["op"] == "compile"
        if not ready and x < .6:
            h.append(dict(op="compile", j=rng.choice([1, 1, 2]), w=""))
        elif x < .12:
            h.append(dict(op="compile", j=rng.choice([1, 2]), w=""))
        elif x < .25:
            h.append(dict(op="declare", j=rng.choice([1, 1, 2]), w=""))
        elif x < .32 and comp:
            h.append(dict(op="edit", j=0, w=""))
        else:
            h.append(dict(op="call", j=rng.choice([1, 1, 2, 3]), w=rng.choice(["predict", "predict", "predict", "grad", "train"] if ready else ["predict", "grad"])))
    return h


def c10(ck):
    rng = ck.rng
    lib.model_check("MCShapes", CFG.format(d=ck.pick(4, 5)) + INV, ck.stats)
    beh, total = lib.behaviours("MCShapes", CFG.format(d=4) + "INVARIANT Dump\n", ck.stats)
    ck.stats.extra["spec_behaviours_enumerated"] = total
    beh = [b for b in beh if any(h["op"] == "compile" for h in b[:3])]
    scns = [scenario(rng, b) for b in rng.sample(beh, min(len(beh), ck.pick(60, 1500)))]
    for i in range(ck.pick(120, 3000)):
        scns.append(scenario(rng, rand_hist(rng, rng.randrange(4, 9)), kind=KINDS[i % len(KINDS)]))
    ck.run_and_judge("drv_shape", "ShapesTrace", scns)
