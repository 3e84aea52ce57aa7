"""C11: array modules compute their documented function."""
import lib, zoo

CFG = "INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nCONSTANT Depth = %d\nINVARIANT Keeps\nINVARIANT Consistent\nINVARIANT Laws\n"
STRUCT = ["Reshape", "Flatten", "TreeKey", "TreeFlatten", "ConcatenateLeaves", "Comment"]
LIGHT = ["Bias", "PReLU", "Act"]
HEAVY = ["MatMul", "Einsum", "AffineTensor", "AffineHermitianMatrix", "LowRank", "LinearNN", "Constant"]
FINAL = ["Obs", "AffineObservablePMM"]
ACT = {"ReLU": "relu", "ReLU6": "relu6", "HardTanh": "hardtanh", "LeakyReLU": "leaky", "Abs": "abs", "Square": "square", "PReLU": "prelu"}


def g_act(rng, t):
    t = t or zoo.gen_type(rng)
    if any(x["c"] for _, x in zoo.leaves(t)):
        return None
    a = rng.choice([x for x in ACT if x != "PReLU"])
    m = {"m": a, "kw": {}}
    if a == "LeakyReLU":
        v = float(rng.choice([2, 3, -1]))
        if rng.random() < .5:
            m["kw"] = {"negative_slope": v}
        else:
            m["args"] = [v]
    return m, t, t


def act_view(m):
    if m is None:
        return dict(f="", a=0)
    a = m.get("args", [m["kw"].get("negative_slope", 0)])[0] if m["m"] == "LeakyReLU" else 0
    return dict(f=ACT[m["m"]], a=int(a))


def g_einsum(rng, t):
    """as zoo.g_einsum, with repeated indices and empty results"""
    if t is None and rng.random() < .3:
        t = zoo.gen_type(rng, depth=2, nd=rng.choice([1, 2]))
    r = zoo.g_einsum(rng, t)
    if r is None or rng.random() > .3:
        return r
    m, t, out = r
    s = m["kw"]["einsum_str"]
    if isinstance(s, str) and "->" in s and rng.random() < .4:
        return dict(m, kw=dict(m["kw"], einsum_str=s.split("->")[0] + "->")), t, zoo.leaf(c=out["c"])
    if isinstance(s, str) and "params" not in m["kw"] and not m["kw"].get("trainable") and "->" in s:
        ins, o = s.split("->")
        ws = ins.split(",")
        ls = [l["s"] for _, l in zoo.leaves(t)]
        for w, sh in list(zip(ws, ls)):
            for i in range(len(w) - 1):
                if sh[i] == sh[i + 1] and w[i] != w[i + 1]:
                    b = w[i + 1]
                    ws = [x.replace(b, w[i]) for x in ws]; o = o.replace(b, w[i])
                    o = "".join(dict.fromkeys(o))
                    size = {c: n for x, q in zip(ws, ls) for c, n in zip(x, q)}
                    m = dict(m, kw=dict(m["kw"], einsum_str=",".join(ws) + "->" + o))
                    return m, t, zoo.leaf(*[size[c] for c in o], c=out["c"])
    return r


def g_linear(rng, t):
    r = zoo.g_linear(rng, t)
    if r is None:
        return None
    m, t, out = r
    if m["kw"].get("activation") is not None:
        m["kw"]["activation"] = g_act(rng, zoo.leaf(1))[0] if rng.random() < .6 else {"m": "PReLU", "kw": rng.choice([{}, {"single_parameter": False}])}
    return m, t, out


def gen(rng, kind, t):
    g = {"Act": g_act, "Einsum": g_einsum, "LinearNN": g_linear}.get(kind, zoo.GENS[kind] if kind in zoo.GENS else None)
    r = g(rng, t)
    if r is None:
        return None
    m, tin, out = r
    kw = m["kw"]
    if m["m"] == "Bias" and isinstance(kw.get("bias"), float):
        kw["bias"] = float(rng.choice([2, -1, 3]))
    if "smoothing" in kw:
        kw["smoothing"] = float(rng.choice([0, 1, 2, -1]))
    if "Ds" in kw and kw.get("centered", True):
        kw["Ds"] = dict(kw["Ds"], herm=2)
    if m["m"] == "AffineObservablePMM" and "Ms" in kw:
        kw["Ms"] = dict(kw["Ms"], herm=3)
    return m, tin, out


def words(v):
    if isinstance(v, str):
        return [v]
    if isinstance(v, list):
        return [w for x in v for w in words(x)]
    if "dict" in v:
        return [w for _, x in v["dict"] for w in words(x)]
    return [w for x in v["tup"] for w in words(x)]


def nums(w):
    return [ord(c) for c in w]


def skeleton(t):
    if zoo.is_leaf(t):
        return dict(k="t", s=[], v=[], c=[], x=[])
    if "d" in t:
        return dict(k="d", s=[], v=[], c=[k for k, _ in t["d"]], x=[skeleton(x) for _, x in t["d"]])
    k = "l" if "l" in t else "u"
    return dict(k=k, s=[], v=[], c=[str(i) for i in range(len(t[k]))], x=[skeleton(x) for x in t[k]])


def flat_shapes(v, t):
    """per leaf of t: the shape in the (tree of) shapes v, or None"""
    if v is None:
        return [None] * len(zoo.leaves(t))
    if zoo.is_leaf(t):
        return [v["tup"]]
    if "d" in t:
        d = dict((k, x) for k, x in v["dict"])
        return [s for k, x in t["d"] for s in flat_shapes(d[k], x)]
    vs = v["tup"] if isinstance(v, dict) else v
    return [s for y, x in zip(vs, t.get("l", t.get("u"))) for s in flat_shapes(y, x)]


def view(m, t, out):
    """the module as the specification sees it (parameters are added by the driver)"""
    kw, n = m["kw"], m["m"]
    sep = kw.get("separator", ".")
    sp = lambda p: p.split(sep)
    if n == "Einsum":
        e = kw["einsum_str"]
        nl = len(zoo.leaves(t))
        if isinstance(e, str):
            ins, _, o = e.partition("->")
            ws = ins.split(",")
            infer = "->" not in e
            return dict(m="einsum", lead=[nums(w) for w in ws[:len(ws) - nl]], terms=[nums(w) for w in ws[len(ws) - nl:]], infer=infer, out=nums(o))
        raise ValueError(e)
    if n == "MatMul":
        po = kw.get("path_order")
        return dict(m="matmul", ordered=po is not None, order=[["", ""] if p == sep + sep else sp(p) for p in (po or [])])
    if n == "Reshape":
        ss = flat_shapes(kw.get("shape"), t)
        return dict(m="reshape", keep=[s is None for s in ss], shapes=[s or [] for s in ss])
    if n == "Flatten":
        return dict(m="flatten")
    if n == "TreeFlatten":
        return dict(m="treeflatten")
    if n == "TreeKey":
        kp = kw["keypaths"]
        if isinstance(kp, str):
            return dict(m="treekey", form="s", paths=[sp(kp)], keys=[])
        if isinstance(kp, list) or "tup" in kp:
            ps = kp if isinstance(kp, list) else kp["tup"]
            return dict(m="treekey", form="l" if isinstance(kp, list) else "u", paths=[sp(p) for p in ps], keys=[str(i) for i in range(len(ps))])
        return dict(m="treekey", form="d", paths=[sp(p) for _, p in kp["dict"]], keys=[k for k, _ in kp["dict"]])
    if n == "ConcatenateLeaves":
        po = kw.get("path_order")
        po = po["tup"] if isinstance(po, dict) else po
        return dict(m="concat", ordered=po is not None, order=[sp(p) for p in (po or [])], flat="axis" not in kw, axis=kw.get("axis", 0))
    if n == "Bias":
        return dict(m="bias")
    if n == "Constant":
        return dict(m="constant", skel=skeleton(out))
    if n == "PReLU":
        return dict(m="prelu", single=kw.get("single_parameter", True))
    if n in ACT:
        return dict(m="act", act=act_view(m))
    if n == "LinearNN":
        return dict(m="linear", bias=kw.get("bias", True), act=act_view(kw.get("activation")))
    if n in ("AffineTensor", "AffineHermitianMatrix"):
        return dict(m="affine", bias=kw.get("bias_term", True), smooth=int(kw.get("smoothing", 0)))
    if n == "LowRankAffineHermitianMatrix":
        return dict(m="lowrank", bias=kw.get("bias_term", True), smooth=int(kw.get("smoothing", 0)))
    if n in ("TransitionAmplitudeSum", "ExpectationValueSum"):
        return dict(m="obs", kind="ev" if n[0] == "E" else "ta", centered=kw.get("centered", True))
    if n == "AffineObservablePMM":
        w = kw.get("which") or ("SA" if kw.get("smoothing", 0) else "LM")
        return dict(m="affobs", kind="ev" if kw.get("use_expectation_values") else "ta", centered=kw.get("centered", True), bias=kw.get("affine_bias_matrix", True),
                    end=w[0], by=w[1], k=kw["num_eig"])
    return dict(m="comment")


def einsum_view(m, t):
    """for tree-shaped specifications: lead string, tree of words, result word"""
    e = m["kw"]["einsum_str"]
    if isinstance(e, str):
        return view(m, t, None)
    nl = len(zoo.leaves(t))
    parts = list(e["tup"]) if m["parts"] > 1 else [e]
    lead, out, infer = [], "", True
    if len(parts) > 1 and isinstance(parts[-1], str):
        out, infer = parts.pop(), False
    if len(parts) > 1:
        lead = parts[0].split(",")
    return dict(m="einsum", lead=[nums(w) for w in lead], terms=[nums(w) for w in words(parts[-1])], infer=infer, out=nums(out))


def scenario(rng, kinds):
    """a chain of modules of the given kinds"""
    for _ in range(200):
        t, mods, tin = None, [], None
        for kd in kinds:
            r = gen(rng, kd, t)
            if r is None or "herm" in r[1]:
                break
            m, ti, out = r
            if m["m"] == "Einsum" and isinstance(m["kw"]["einsum_str"], (dict, list)):
                # a bare tuple of words (result inferred, no leading arrays) could be read in two ways
                if m["parts"] == 1 and "u" in ti:
                    break
            v = einsum_view(m, ti) if m["m"] == "Einsum" else view(m, ti, out)
            tin = tin or ti
            mods.append(dict(mod=m, view=v, tin=ti, tout=out))
            t = out
        else:
            if sum(zoo.size(l["s"]) for x in mods for _, l in zoo.leaves(x["tin"])) > 60:
                continue
            scalar = zoo.is_leaf(t) and t["s"] == []
            return dict(tin=tin, mods=mods, n=rng.choice([1, 2, 3]), seed=rng.randrange(10 ** 6), own=rng.random() < .4,
                        how=["module"] if scalar else ["module", "model"] if len(mods) == 1 else ["model"], batch=rng.choice([0, 0, 1, 2]))
    return None


MENU = dict(flatten=("Flatten", {}), treeflatten=("TreeFlatten", {}), key_b=("TreeKey", {"keypaths": "b"}), key_swap=("TreeKey", {"keypaths": {"tup": ["b.1", "a"]}}),
            key_dict=("TreeKey", {"keypaths": {"dict": [["p", "b"], ["q", "a"]]}}), key_0=("TreeKey", {"keypaths": ["0", "0"]}),
            cat=("ConcatenateLeaves", {}), cat0=("ConcatenateLeaves", {"axis": 0}), cat_1=("ConcatenateLeaves", {"axis": -1}),
            cat_order=("ConcatenateLeaves", {"axis": -2, "path_order": ["b.1", "a"]}))


def c11(ck):
    rng = ck.rng
    progs, total = lib.behaviours("MCTensors", CFG % ck.pick(3, 4), ck.stats, limit=ck.pick(40, 2000), rng=rng)
    ck.stats.count("programs_enumerated", total)
    scns = []
    two = zoo.leaf(2, 1)
    start = {"d": [["a", two], ["b", {"l": [two, two]}]]}
    for p in progs:
        mods = []
        for nm in p["prog"]:
            m = {"m": MENU[nm][0], "kw": MENU[nm][1]}
            mods.append(dict(mod=m, view=view(m, start, start), tin=start, tout=start))
        scns.append(dict(tin=start, mods=mods, n=2, seed=rng.randrange(10 ** 6), own=False, how=["model"], batch=0))
    todo = []
    for kd in STRUCT + LIGHT + HEAVY + FINAL:
        todo += [[kd]] * ck.pick({"Einsum": 40, "MatMul": 36, "TreeKey": 12, "ConcatenateLeaves": 16, "Reshape": 12, "Obs": 14, "AffineObservablePMM": 14, "Comment": 1, "TreeFlatten": 4, "Flatten": 4}.get(kd, 9), 300)
    for _ in range(ck.pick(40, 2500)):
        ks = [rng.choice(STRUCT + LIGHT) for _ in range(rng.randrange(0, 2))] + [rng.choice(HEAVY + STRUCT)] + [rng.choice(STRUCT + LIGHT) for _ in range(rng.randrange(0, 3))]
        if rng.random() < .2:
            ks = [rng.choice(STRUCT) for _ in range(rng.randrange(0, 2))] + [rng.choice(FINAL)] + [rng.choice(["Reshape", "Flatten", "TreeFlatten"]) for _ in range(rng.randrange(0, 2))]
        todo.append(ks)
    for ks in todo:
        s = scenario(rng, ks)
        if s is None:
            ck.stats.count("no_composition")
            continue
        for x in s["mods"]:
            ck.stats.count("module_" + x["mod"]["m"])
        scns.append(s)
    ck.run_and_judge("drv_tens", "TensorsTrace", scns)
