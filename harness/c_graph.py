"""C09 (graph models) and C20 (connection expansion and resolution)."""
import lib

CFG = 'INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nCONSTANTS Mods={m}\n'
INV = "".join(f"INVARIANT {x}\n" for x in "CompletesIff OrderOK AfterSources NoEarlyOutput".split())
NAMES = ["M", "M1", "M10", "inputs", "input2", "input_block", "outputs", "output1", "output_x", "in", "out", "a", "b",
         "block", "x", "Input", "put", "xa", "ba", "t", "o", "nip", "top"]
SLOTS = ["a", "b", "x", "y", "foo", "input", "output", "time", "u", "tuo", "p"]
PARTS = ["x1", "y", "time", "put", "in", "u", "a", "n", "tip", "output", "input"]
SEPS = [".", ".", ".", "/", "::", "->"]


def gen_tree(rng, n, mods_from=0, depth=2, top=True):
    """containers over n modules; returns tree, paths (in index order), next index"""
    kind = rng.choice("ddddlu")
    k = rng.randrange(1, n + 1) if depth else n
    k = n if rng.random() < .4 else k
    cuts = sorted(rng.sample(range(1, n), k - 1)) if k > 1 else []
    parts = [b - a for a, b in zip([0] + cuts, cuts + [n])]
    if kind == "d":
        keys = rng.sample(NAMES, k) if rng.random() < .93 or not top else [str(i) for i in rng.sample(range(8), k)]
    else:
        keys = [str(i) for i in range(k)]
    cs, paths, idx = [], [], mods_from
    for key, m in zip(keys, parts):
        if m == 1 and (depth == 0 or rng.random() < .8):
            cs.append({"t": "x", "x": idx}); paths.append([key]); idx += 1
        else:
            c, ps, idx = gen_tree(rng, m, idx, max(0, depth - 1), False)
            cs.append(c); paths += [[key] + p for p in ps]
    t = {"t": kind, "c": cs}
    if kind == "d":
        t["k"] = keys
    return t, paths, idx


def out_paths(kind):
    return {"a": [[]], "d": [[], [], ["a"], ["b"]], "t": [[], ["0"], ["1"]],
            "n": [[], ["a"], ["b"], ["b", "0"], ["b", "1"]]}[kind]


def gen_slots(rng, n, fresh=False):
    """target places for n connections into one node; no mixing of numbers and words on one level"""
    x = rng.random()
    if fresh and x < .3 and n >= 2:
        base = [[rng.choice(SLOTS)] for _ in range(n - 1)] + [[]]
        rng.shuffle(base)
        return base
    if n == 1:
        return [rng.choice([[], [], [], ["0"], ["a"], ["a", "0"], ["b", "x"], ["2"]])]
    if x < .35:
        return [[] for _ in range(n)]
    if x < .55:
        s = [str(i) for i in rng.sample(range(n + 1), n)]
        return [[i] for i in s]
    if x < .7:
        return [[k] for k in rng.sample(SLOTS, n)] if n <= len(SLOTS) else [[] for _ in range(n)]
    if x < .8:
        r = [[str(i)] for i in rng.sample(range(n), n - 1)] + [[]]
        rng.shuffle(r)
        return r
    if x < .9:
        k = rng.choice(["a", "foo"])
        return [[k] for _ in range(n - 1)] + [["b", rng.choice(["x", "0"])]]
    if fresh or x < .95:
        return [["0"] for _ in range(n - 1)] + [["1"]]
    return [["0", str(i)] for i in range(n - 1)] + [["1"]]


def gen_data(rng, n):
    lf = lambda: {"t": "x", "x": [rng.randrange(30011) for _ in range(n)]}
    k = rng.randrange(4)
    if k == 0:
        return lf(), [[]]
    if k == 1:
        a, b = sorted(rng.sample(PARTS, 2))
        return {"t": "d", "k": [a, b], "c": [lf(), lf()]}, [[], [a], [b], [a], [b]]
    if k == 2:
        return {"t": "l", "c": [lf(), lf()]}, [[], ["0"], ["1"], ["0"], ["1"]]
    a, b = sorted(rng.sample(PARTS, 2))
    return ({"t": "d", "k": [a, b], "c": [lf(), {"t": "l", "c": [lf(), lf()]}]},
            [[], [a], [b], [b, "0"], [b, "1"]])


def mix(rng):
    return dict(kind="mix", mul=rng.randrange(2, 30011), add=rng.randrange(1, 1000), out=rng.choice("aadtn"))


def out_kind(m):
    return m["out"] if m["kind"] == "mix" else out_kind(m["ms"][-1]) if m["kind"] == "seq" else None


def gen_graph(rng, nmod, in_paths, depth=1, fresh=False, sep=None):
    tree, paths, _ = gen_tree(rng, nmod)
    mods = []
    for _ in range(nmod):
        x = rng.random()
        if x < .12:
            mods.append(dict(kind="seq", ms=[mix(rng) for _ in range(rng.randrange(1, 4))]))
        elif x < .2 and depth:
            g = gen_graph(rng, rng.randrange(1, 3), [[]], depth - 1)
            mods.append(dict(kind="graph", g=g))
        else:
            mods.append(mix(rng))
    order = list(range(nmod)); rng.shuffle(order)
    skip = {order[0]} if nmod > 2 and rng.random() < .15 else set()
    ready = [(["input"], in_paths)]
    written = []                     # (source path, target path)
    for i in order:
        if i in skip:
            continue
        n = rng.choice([1, 1, 1, 2, 2, 3])
        slots = gen_slots(rng, n, fresh)
        for s in slots:
            src, parts = rng.choice(ready[-3:] if rng.random() < .6 else ready)
            written.append((src + list(rng.choice(parts)), paths[i] + s))
        k = out_kind(mods[i])
        ready.append((paths[i], out_paths(k) if k else [[]]))
    n = rng.choice([1, 1, 2, 3])
    for j, s in enumerate(gen_slots(rng, n, fresh)):
        src, parts = ready[-1] if j == 0 else rng.choice(ready)
        written.append((src + list(rng.choice(parts)), ["output"] + s))
    return finish(rng, tree, paths, mods, written, sep)


def finish(rng, tree, paths, mods, written, sep=None):
    keys = []
    by = {}
    for f, t in written:
        k = tuple(f)
        if k not in by:
            by[k] = []; keys.append(k)
        by[k].append(t)
    rng.shuffle(keys)
    w = []
    for k in keys:
        ts = by[k]
        if rng.random() < .5:
            rng.shuffle(ts)
        w.append([list(k), "s" if len(ts) == 1 and rng.random() < .6 else rng.choice("lt"), ts])
    sep = sep or rng.choice(SEPS)
    return dict(tree=tree, paths=paths, mods=mods, w=w, sep=sep, mixed=False)


def pairs(g):
    return [(k, t) for k, _, ts in g["w"] for t in ts]


def damage(rng, g):
    """an impossible (or at least different) graph"""
    ps = [(list(k), list(t)) for k, t in pairs(g)]
    x = rng.randrange(8)
    mod = rng.choice(g["paths"])
    if x == 0:
        ps.append((list(rng.choice(g["paths"])), list(mod)))            # maybe a cycle
    elif x == 1:
        ps.append((mod, mod + ["k"]))                                   # self loop
    elif x == 2:
        ps.append((["ghost"] if rng.random() < .5 else mod[:-1] + ["ghost"], ["output", "k"] if rng.random() < .5 else list(mod)))
    elif x == 3:
        ps.append((["input"], ["ghost"] if rng.random() < .5 else mod[:-1] + ["ghost", "a"]))
    elif x == 4:
        ps.append((["output"], list(mod)))
    elif x == 5:
        ps.append((list(mod), ["input"] if rng.random() < .5 else ["input", "a"]))
    elif x == 6:
        ps = [p for p in ps if p[0][0] != "input"]
    else:
        ps = [p for p in ps if p[1][0] != "output"]
    if not ps:
        return g
    return finish(rng, g["tree"], g["paths"], g["mods"], ps, g["sep"])


def ambiguous(g):
    """numbers and words (or a value and a container) on one level of a target: not generated for models"""
    by = {}
    for k, t in pairs(g):
        o = next((tuple(p) for p in g["paths"] if t[:len(p)] == p), (t[0],))
        by.setdefault(o, []).append(t[len(o):])

    def amb(ps):
        if len(ps) <= 1:
            return False
        heads = [p[0] for p in ps if p]
        words = [h for h in heads if not h.isdigit()]
        if words and (len(words) < len(heads) or len(heads) < len(ps)):
            return True
        return any(amb([p[1:] for p in ps if p and p[0] == h]) for h in set(heads))
    return any(amb(v) for v in by.values())


def has_fresh_nested(g):
    return any(m["kind"] == "graph" and (ambiguous(m["g"]) or has_fresh_nested(m["g"])) for m in g["mods"])


def group_named(g):
    """a connection that names a group of modules instead of a module"""
    for k, t in pairs(g):
        for q in (k, t):
            if any(p[:len(q)] == q and len(p) > len(q) for p in g["paths"]):
                return True
    return False


def c20(ck):
    rng = ck.rng
    lib.model_check("MCGraphs", CFG.format(m='{"A","B"}' if not ck.thorough else '{"A","B","C"}') + INV, ck.stats)
    beh, total = lib.behaviours("MCGraphs", CFG.format(m='{"A","B","C"}') + "INVARIANT Dump\n", ck.stats)
    ck.stats.extra["graphs_enumerated"] = total
    beh = rng.sample(beh, min(len(beh), ck.pick(9000, 65536)))
    scns = []
    ops = []
    for E in beh:
        ren = dict(A=rng.choice(["A", "inputs"]), B=rng.choice(["B", "outputs"]), C=rng.choice(["C", "input.x"]), input="input", output="output")
        es = [[ren[a[0]], ren[b[0]]] for a, b in E]
        rng.shuffle(es)
        ops.append(dict(e="resolve", E=es))
    # larger random graphs
    for _ in range(ck.pick(1500, 15000)):
        n = rng.randrange(3, 9)
        nodes = ["input"] + [f"n{i}" for i in range(n)] + ["output"]
        es = []
        for j in range(1, len(nodes)):
            for a in rng.sample(nodes[:j], min(j, rng.choice([0, 1, 1, 1, 2, 3]))):
                if a != "output":
                    es.append([a, nodes[j]])
        if rng.random() < .25 and n > 1:
            a, b = rng.sample(nodes[1:-1], 2)
            if [a, b] not in es:
                es.append([a, b])
        if rng.random() < .2 and es:
            es.append(list(rng.choice(es)))       # the same edge twice
        rng.shuffle(es)
        ops.append(dict(e="resolve", E=es))
    comp = ["a", "b", "0", "1", "2"]
    for _ in range(ck.pick(1500, 15000)):
        n = rng.randrange(1, 8)
        ps = [[rng.choice(comp) for _ in range(rng.choice([0, 1, 1, 2, 3]))] for _ in range(n)]
        ops.append(dict(e="paths", ps=ps, sep=rng.choice(SEPS)))
    for _ in range(ck.pick(1800, 18000)):
        g = gen_graph(rng, rng.randrange(1, 7), rng.choice([[[]], [[], [rng.choice(PARTS)], [rng.choice(PARTS), "0"], [rng.choice(PARTS)]]]), depth=0, fresh=rng.random() < .4)
        if rng.random() < .25:
            g = damage(rng, g)
        if group_named(g):
            continue
        g["mixed"] = ambiguous(g)
        for e in ("part", "outer", "conc", "place"):
            if e == "place" and g["mixed"]:
                continue
            ops.append(dict(e=e, g=g))
    rng.shuffle(ops)
    for a in range(0, len(ops), 12):
        scns.append(dict(ops=ops[a:a + 12]))
    ck.stats.extra["operations"] = len(ops)
    split_and_judge(ck, scns)


def split_and_judge(ck, scns):
    ck.run_and_judge("drv_graph", "GraphsTrace", scns)


def c09(ck):
    rng = ck.rng
    lib.model_check("MCGraphs", CFG.format(m='{"A","B"}' if not ck.thorough else '{"A","B","C"}') + INV, ck.stats)
    beh, total = lib.behaviours("MCGraphs", CFG.format(m='{"A","B"}') + "INVARIANT Dump\n", ck.stats)
    ck.stats.extra["graphs_enumerated"] = total
    beh = rng.sample(beh, min(len(beh), ck.pick(260, 512)))
    ops = []
    n = 3
    for E in beh:
        if not E:
            continue
        tree, paths, _ = gen_tree(rng, 2)
        ren = {"A": paths[0], "B": paths[1], "input": ["input"], "output": ["output"]}
        g = finish(rng, tree, paths, [mix(rng), mix(rng)], [(list(ren[a[0]]), list(ren[b[0]])) for a, b in E])
        ops.append(dict(e="model", g=g, n=n, data=gen_data(rng, n)[0], seed=rng.randrange(100)))
    want = ck.pick(420, 5000)
    while want:
        data, ips = gen_data(rng, n)
        g = gen_graph(rng, rng.choice([1, 2, 3, 3, 4, 5, 6, 8]), ips, depth=1)
        if rng.random() < .2:
            g = damage(rng, g)
        if ambiguous(g) or has_fresh_nested(g):
            continue
        want -= 1
        ops.append(dict(e="model", g=g, n=n, data=data, seed=rng.randrange(100)))
    ck.run_and_judge("drv_graph", "GraphsTrace", [dict(ops=[o]) for o in ops])
