"""C25: array utilities on trees."""
import lib, zoo

LAWS = ["CutJoin", "SplitAll", "PieceIs", "Shuffle", "Zips"]
CFG = "INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nCONSTANT Top = %d\n" + "".join(f"INVARIANT {i}\n" for i in LAWS)


def form(rng, leaves):
    """a tree over the given leaves"""
    if len(leaves) == 1 and rng.random() < .6:
        return leaves[0]
    k = rng.choice("dlu")
    if len(leaves) > 2 and rng.random() < .5:
        j = rng.randrange(1, len(leaves) - 1)
        leaves = leaves[:j] + [form(rng, leaves[j:])]
    n = len(leaves)
    c = sorted(rng.sample(["a", "b", "c", "ab", "B", "10", "9"], n)) if k == "d" else [str(i) for i in range(n)]
    return dict(k=k, s=[], v=[], c=c, x=leaves)


def leaf(s, v):
    return dict(k="t", s=s, v=v, c=[], x=[])


def remake(t, f):
    return leaf(*f(t)) if t["k"] == "t" else dict(t, x=[remake(x, f) for x in t["x"]])


def leaves(t):
    return [t] if t["k"] == "t" else [y for x in t["x"] for y in leaves(x)]


def shapes(rng, n=None):
    return [rng.choice([[1], [2], [3], [2, 2], [1, 3], [2, 1, 2], [], [4]]) for _ in range(n or rng.choice([1, 1, 2, 3, 4]))]


def tree(rng, shs, pool, cplx):
    z = lambda: [rng.choice(pool), rng.choice(pool) if cplx else 0]
    return form(rng, [leaf(list(s), [z() for _ in range(zoo.size(s))]) for s in shs])


def numbered(rng, shs):
    out, k = [], rng.randrange(5)
    for s in shs:
        out.append(leaf(s, [[k + i, 0] for i in range(zoo.size(s))])); k += rng.randrange(3)
    return form(rng, out)


def along(rng, n):
    """shapes with size n at a common axis -> shapes, axis"""
    ax = rng.choice([0, 0, 0, 1, -1, -2])
    out = []
    for _ in range(rng.choice([1, 2, 3])):
        nd = rng.choice({0: [1, 2, 3], 1: [2, 3], -1: [1, 2, 3], -2: [2, 3]}[ax])
        s = [rng.choice([1, 2, 3]) for _ in range(nd)]
        s[ax] = n
        out.append(s)
    return out, ax


def select(rng, lo):
    """axes that every leaf has (lo: least number of dimensions)"""
    r = rng.random()
    if r < .3 or not lo:
        return dict(k="all") if r < .2 or not lo else dict(k="from", a=rng.choice([0, 1]), b=rng.choice([-1, 1, 2]))
    if r < .55:
        return dict(k="from", a=rng.choice([0, 1, 1]), b=rng.choice([-1, -1, 1, 2]))
    return dict(k="some", a=[rng.randrange(-lo, lo) for _ in range(rng.choice([1, 1, 2]))])


def call(rng):
    op = rng.choice(["add", "sub", "mul", "div", "neg", "abs", "abs_sqr", "sqrt", "abs_sqrt", "pow", "scalar_add", "scalar_mul", "concatenate", "concatenate", "batch_leaves", "batch_leaves",
                     "pytree_split", "pytree_split", "random_permute_leaves", "random_permute_leaves", "mean", "mean", "get_shapes", "has_uniform_leaf_shapes", "uniform_leaf_shapes_equal",
                     "shapes_equal", "all_equal", "all_close", "any", "is_single_leaf", "astype", "safecast"])
    r = dict(op=op, den=1)
    cx = rng.random() < .3
    P = list(range(-6, 7))
    if op in ("add", "sub", "mul", "div"):
        shs = shapes(rng)
        r["a"] = tree(rng, shs, P, cx)
        pool = [1, -1, 2, -2] if op == "div" else P
        r["b2"] = remake(r["a"], lambda t: (t["s"], [[rng.choice(pool), 0] for _ in t["v"]] if op == "div" else [[rng.choice(P), rng.choice(P) if cx else 0] for _ in t["v"]]))
        if rng.random() < .12:
            r["b2"] = tree(rng, shs, pool, False)
        r["den"] = 4 if op == "div" else 1
    elif op in ("neg", "abs_sqr"):
        r["a"] = tree(rng, shapes(rng), P, cx)
    elif op == "abs":
        r["a"] = remake(tree(rng, shapes(rng), P, False), lambda t: (t["s"], [rng.choice([[3, 4], [-4, 3], [0, -5], [-2, 0], [5, -12]]) if cx else z for z in t["v"]]))
    elif op == "sqrt":
        r["a"] = tree(rng, shapes(rng), [0, 1, 4, 9, 16, 25], False)
    elif op == "abs_sqrt":
        r["a"] = remake(tree(rng, shapes(rng), [0, 1, -4, 9, -16], False), lambda t: (t["s"], [rng.choice([[0, 4], [-9, 0], [0, -1]]) if cx else z for z in t["v"]]))
    elif op == "pow":
        r["a"] = tree(rng, shapes(rng), [-3, -2, -1, 0, 1, 2, 3], cx); r["k"] = rng.choice([0, 1, 2, 3]); r["fl"] = rng.random() < .4
    elif op in ("scalar_add", "scalar_mul"):
        r["a"] = tree(rng, shapes(rng), P, cx); r["z"] = [rng.choice(P), rng.choice(P) if cx else 0]; r["form"] = rng.choice(["py", "py", "arr"])
    elif op == "concatenate":
        m = rng.choice([1, 2, 2, 3])
        shs, ax = along(rng, 1)
        base = numbered(rng, shs)
        r["ts"] = []
        for i in range(m):
            n = rng.choice([1, 2, 3])
            def f(t):
                s = list(t["s"]); s[ax] = n
                return s, [[rng.choice(P), 0] for _ in range(zoo.size(s))]
            r["ts"].append(remake(base, f))
        if m > 1 and rng.random() < .1:
            r["ts"][-1] = numbered(rng, shs)
        r["ax"] = ax; r["tup"] = rng.random() < .4
    elif op in ("batch_leaves", "pytree_split"):
        n = rng.randrange(1, 8)
        shs, ax = along(rng, n)
        r["a"] = numbered(rng, shs); r["ax"] = ax
        r["size"] = rng.randrange(1, n + 1)
        if op == "batch_leaves":
            r["k"] = rng.randrange(0, -(-n // r["size"]))
            room = n - r["k"] * r["size"]
            r["len"] = min(r["size"], room)
            r["giveln"] = r["len"] != r["size"] or rng.random() < .3
            if r["giveln"] and rng.random() < .3:
                r["len"] = rng.randrange(0, room + 1)
            r["arr"] = rng.random() < .3
    elif op == "random_permute_leaves":
        shs, ax = along(rng, rng.choice([1, 2, 3, 4]))
        r.update(a=numbered(rng, shs), ax=ax, ia=rng.random() < .25, il=rng.random() < .3, seed=rng.randrange(1000))
    elif op == "mean":
        r["a"] = tree(rng, shapes(rng), P, cx)
    elif op in ("get_shapes", "has_uniform_leaf_shapes", "uniform_leaf_shapes_equal", "shapes_equal"):
        mk = lambda: ([rng.choice([[2], [2, 3], [2, 1], [3, 3], [2, 3, 1]]) for _ in range(rng.choice([1, 2, 3]))])
        s1 = mk() if rng.random() < .5 else [rng.choice([[2, 3], [2, 3], [2, 1]])] * rng.choice([1, 2, 3])
        s2 = [list(s) for s in s1] if rng.random() < .5 else mk()
        if rng.random() < .4:
            i = rng.randrange(len(s2)); s2[i] = s2[i][:-1] + [s2[i][-1] + 1]
        r["a"] = numbered(rng, s1)
        r["b2"] = numbered(rng, s2)
        if rng.random() < .8 and len(s1) == len(s2):
            it = iter(s2)
            def f(t):
                s = next(it)
                return s, [[1, 0]] * zoo.size(s)
            r["b2"] = remake(r["a"], f)
        r["sel"] = select(rng, min(len(s) for s in s1 + s2)); r["int"] = rng.random() < .5
    elif op in ("all_equal", "all_close"):
        r["a"] = tree(rng, shapes(rng), P, cx)
        r["b2"] = remake(r["a"], lambda t: (list(t["s"]), [list(z) for z in t["v"]]))
        r["gap"] = rng.choice([0, 1, 2]) if op == "all_close" else 0
        r["rtol"] = rng.choice([0, 0, 3]) if op == "all_close" else 0
        if rng.random() < .5 and op == "all_equal":
            ls = leaves(r["b2"]); t = rng.choice(ls)
            t["v"][rng.randrange(len(t["v"]))][rng.randrange(2) if cx else 0] += 1
        elif rng.random() < .3:
            # all_close leaves open what it does with arrays of other shapes, all_equal does not
            r["b2"] = tree(rng, shapes(rng, len(leaves(r["a"])) + 1 if op == "all_close" else None), P, cx)
            r["gap"] = 2
    elif op == "any":
        r["a"] = form(rng, [leaf([], [[rng.choice([0, 0, 0, 1]), 0]]) for _ in range(rng.choice([1, 2, 3, 4]))])
    elif op == "is_single_leaf":
        r["a"] = form(rng, [leaf(s, [[1, 0]] * zoo.size(s)) for s in shapes(rng, rng.choice([1, 1, 1, 2]))])
        s = leaves(r["a"])[0]["s"]
        r["nd"], r["sh"] = -1, [-9]
        if rng.random() < .5:
            r["sh"] = [rng.choice([d, d, -1, d + 1]) for d in (s if rng.random() < .8 else s + [1])]
        if rng.random() < .5:
            r["nd"] = rng.choice([len(s), len(s), len(s) + 1]) if r["sh"] == [-9] else len(r["sh"])
    else:
        r["a"] = tree(rng, shapes(rng), P, cx)
        r["want"] = rng.choice(["float32", "float16", "int32", "complex64", "float32"] if op == "astype" else ["float32", "complex64", "float16"])
        r["real"] = r["want"] != "complex64"; r["cplx"] = cx
    r["cx"] = cx
    return r


def c25(ck):
    rng = ck.rng
    lib.model_check("MCLeafwise", CFG % ck.pick(4, 5), ck.stats)
    scns = [dict(calls=[call(rng) for _ in range(6)]) for _ in range(ck.pick(400, 12000))]
    for s in scns:
        for c in s["calls"]:
            ck.stats.count(c["op"])
    ck.run_and_judge("drv_leaf", "LeafwiseTrace", scns)
