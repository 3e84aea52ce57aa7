"""C19: path operations on nested containers."""
import lib

CFG = "INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nCONSTANTS Depth2={d}\n"
INV = "".join(f"INVARIANT {x}\n" for x in ("PutThenGet PutFrame GetThenPut GrowThere GrowKeeps GrowTwice GrowNoneKeeps "
                                           "ThawSame EarlyAgrees").split())
KEYS = ["a", "b", "ab", "a1", "input", "output", "0", "1", "10", "inputs"]


def comp(s):
    return {"s": s, "i": int(s) if s.isdigit() else -1}


def rand_tree(rng, depth, top=True):
    x = rng.random()
    if not top and (depth == 0 or x < 0.3):
        return {"t": "x", "x": rng.randrange(1, 30)}
    n = rng.choice([0, 1, 2, 3, 3]) if top or rng.random() < .9 else rng.randrange(4, 13)
    cs = [rand_tree(rng, depth - 1, False) for _ in range(n)]
    t = rng.choice("dlu")
    if t == "d":
        ks = rng.sample(KEYS, min(n, len(KEYS)))
        return {"t": "d", "k": ks, "c": cs[:len(ks)]}
    if t == "l":
        cs = [{"t": "n"} if rng.random() < 0.12 else c for c in cs]
    return {"t": t, "c": cs}


def paths(n, pre=()):
    out = [list(pre)] if pre else []
    if n["t"] in "dlu":
        names = n["k"] if n["t"] == "d" else [str(i) for i in range(len(n["c"]))]
        for k, c in zip(names, n["c"]):
            out += paths(c, pre + (comp(k),))
    return out


def rand_path(rng, tree):
    ps = paths(tree)
    x = rng.random()
    p = list(rng.choice(ps)) if ps and x < 0.75 else []
    if x > 0.35:
        for _ in range(rng.choice([1, 1, 2, 3])):
            p.append(comp(rng.choice(KEYS + ["0", "1", "2", "3", "-1"])))
    if x > 0.6 and len(p) > 1 and rng.random() < .3:
        p = p[:-1]
    return p or [comp(rng.choice(KEYS))]


def rest_of(tree, p, tl=False):
    n = tree
    for i, c in enumerate(p):
        if tl and n["t"] == "u":
            return p[i:]
        if n["t"] == "d":
            if c["s"] not in n["k"]:
                return []
            n = n["c"][n["k"].index(c["s"])]
        elif n["t"] in "lu":
            if not 0 <= c["i"] < len(n["c"]):
                return []
            n = n["c"][c["i"]]
        else:
            return p[i:]
    return []


def get_op(rng, tree, p):
    early, tl = rng.random() < 0.5, rng.random() < 0.25
    return dict(op="get", p=p, early=early, rem=rng.random() < 0.5, rest_expected=rest_of(tree, p, tl), tl=tl)


def grow_op(rng, tree, ps, none=False, leaf=True):
    n = len(ps)
    form = rng.choice(["list", "tuple", "single"])
    if form == "single":
        v = {"t": "x", "x": rng.randrange(1, 30)} if leaf else {"t": "n"}
        vs = [v] * n
    else:
        vs = [{"t": "x", "x": rng.randrange(1, 30)} for _ in ps]
    return dict(op="grow", ps=ps, vs=vs, none=none, form=form)


def c19(ck):
    rng = ck.rng
    big = ck.pick("FALSE", "TRUE")
    lib.model_check("MCTrees", CFG.format(d=big) + INV, ck.stats)
    beh, total = lib.behaviours("MCTrees", CFG.format(d="FALSE") + "INVARIANT Dump\n", ck.stats)
    ck.stats.extra["spec_behaviours_enumerated"] = total
    beh = rng.sample(beh, min(len(beh), ck.pick(3000, 30000)))
    scns = []

    def scn(tree, ops):
        scns.append(dict(tree=tree, sep=rng.choice([".", ".", "/", "::", "__"]), defsep=rng.random() < .5, ops=ops))

    for b in beh:
        t, p, q = b["tree"], b["p"], b["q"]
        k = rng.randrange(5)
        v = {"t": "x", "x": 7}
        scn(t, [[get_op(rng, t, p), dict(op="put", p=q, v=v)], [dict(op="put", p=p, v=v), dict(op="put", p=q, v=v)],
                [grow_op(rng, t, [p])], [grow_op(rng, t, [p, q])], [dict(op="thaw"), dict(op="put", p=p, v=v)]][k])
    for _ in range(ck.pick(3000, 40000)):
        t = rand_tree(rng, rng.choice([1, 2, 3, 4]))
        ops = []
        for _ in range(rng.randrange(1, 5)):
            x = rng.random()
            p = rand_path(rng, t)
            if x < 0.35:
                ops.append(dict(op="get", p=p, early=False, rem=rng.random() < .5, rest_expected=[]) if ops else get_op(rng, t, p))
            elif x < 0.6:
                ops.append(dict(op="put", p=p, v=rand_tree(rng, 1, False), tl=rng.random() < .2))
            elif x < 0.92:
                ps = [rand_path(rng, t) for _ in range(rng.randrange(1, 5))]
                ops.append(grow_op(rng, t, ps))
            else:
                ops.append(dict(op="thaw"))
        scn(t, ops)
    for _ in range(ck.pick(600, 6000)):
        ps = [rand_path(rng, rand_tree(rng, 2)) for _ in range(rng.randrange(1, 6))]
        scn({"t": "l", "c": []}, [grow_op(rng, None, ps, none=True)])
    # placeholders: filling with None, then again (lists only, see Trees.tla)
    for _ in range(ck.pick(200, 2000)):
        t = rand_tree(rng, 2)
        ps = [p for p in paths(t)]
        if ps:
            scn(t, [grow_op(rng, t, [rng.choice(ps)], leaf=False)])
    ck.run_and_judge("drv_trees", "TreesTrace", scns)
