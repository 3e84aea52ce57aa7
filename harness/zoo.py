"""Descriptions of the package's own modules with random options, and shape-typed random compositions
of them.  Pure JSON on this side (no jax): harness/zoo_build.py turns a description into real objects.

type      {"s": [2, 3], "c": 0|1}            array of that per-sample shape, complex or not
          {"d": [[key, type], ...]}  {"l": [...]}  {"u": [...]}      dict, list, tuple
value     {"arr": shape, "c": , "seed": , "herm": 0|1}   {"tup": [...]}   {"dict": [[k, v], ..]}   plain JSON
module    {"m": class name, "kw": {...}}      {"m": "seq"|"ns", ...} for models
"""


def leaf(*s, c=0):
    return {"s": list(s), "c": c}


def is_leaf(t):
    return "s" in t


def leaves(t, path=()):
    if is_leaf(t):
        return [(list(path), t)]
    items = t["d"] if "d" in t else [[str(i), x] for i, x in enumerate(t.get("l", t.get("u")))]
    return [y for k, x in items for y in leaves(x, path + (k,))]


def tmap(f, t):
    if is_leaf(t):
        return f(t)
    if "d" in t:
        return {"d": [[k, tmap(f, x)] for k, x in t["d"]]}
    k = "l" if "l" in t else "u"
    return {k: [tmap(f, x) for x in t[k]]}


def size(s):
    n = 1
    for x in s:
        n *= x
    return n


def shape_value(t):
    """the shape tree as a constructor argument"""
    if is_leaf(t):
        return {"tup": t["s"]}
    if "d" in t:
        return {"dict": [[k, shape_value(x)] for k, x in t["d"]]}
    return {"tup": [shape_value(x) for x in t["u"]]} if "u" in t else [shape_value(x) for x in t["l"]]


def arr(rng, *s, c=0, herm=0):
    return {"arr": list(s), "c": c, "seed": rng.randrange(10 ** 6), "herm": herm}


def arr_tree(rng, t):
    if is_leaf(t):
        return arr(rng, *t["s"], c=t["c"])
    if "d" in t:
        return {"dict": [[k, arr_tree(rng, x)] for k, x in t["d"]]}
    return {"tup": [arr_tree(rng, x) for x in t["u"]]} if "u" in t else [arr_tree(rng, x) for x in t["l"]]


def dims(rng, nd=None):
    return [rng.randrange(1, 4) for _ in range(nd if nd is not None else rng.choice([1, 1, 1, 2, 2, 3]))]


def gen_type(rng, depth=2, nd=None):
    if depth == 0 or rng.random() < .45:
        return leaf(*dims(rng, nd))
    n = rng.randrange(1, 4)
    k = rng.choice("ddlu")
    sub = [gen_type(rng, depth - 1, nd) for _ in range(n)]
    if k == "d":
        return {"d": [[a, x] for a, x in zip(sorted(rng.sample(["a", "b", "c", "x1", "y"], n)), sub)]}
    return {k: sub}


def single(rng, t):
    """the type wrapped in a one-leaf container now and then"""
    return rng.choice([t, t, t, {"d": [["a", t]]}, {"l": [t]}, {"u": [t]}, {"d": [["b", {"l": [t]}]]}])


def opt(rng, p, kw, key, val):
    if rng.random() < p:
        kw[key] = val


def mag(rng, kw, p=.7):
    opt(rng, p, kw, "init_magnitude", rng.choice([0.5, 0.25, 1.0, 0.125]))


ACTS = ["ReLU", "ReLU6", "Sigmoid", "Softplus", "SparsePlus", "SparseSigmoid", "SoftSign", "SiLU", "LogSigmoid",
        "LeakyReLU", "HardSigmoid", "HardSiLU", "HardTanh", "ELU", "CELU", "SELU", "GELU", "SquarePlus", "Mish", "Tanh",
        "Sin", "Cos", "Abs", "Square", "Exp2"]
WHICH = ["SA", "LA", "SM", "LM", "EA", "EM", "IA", "IM"]


# ---- every generator: (rng, type or None) -> (module, input type, output type) or None if not applicable
def g_linear(rng, t):
    t = t or single(rng, leaf(*dims(rng)))
    ls = leaves(t)
    if len(ls) != 1:
        return None
    kw = dict(out_features=rng.randrange(1, 5))
    mag(rng, kw)
    opt(rng, .4, kw, "bias", False)
    c = ls[0][1]["c"]
    if rng.random() < .2:
        kw["real"] = False; c = 1
    if not c and rng.random() < .4:
        kw["activation"] = g_act(rng, leaf(1))[0] if rng.random() < .6 else \
            {"m": "PReLU", "kw": rng.choice([{}, {"single_parameter": False}])}
    return {"m": "LinearNN", "kw": kw}, t, leaf(kw["out_features"], c=c)


def g_act(rng, t):
    t = t or gen_type(rng)
    if any(x["c"] for _, x in leaves(t)):
        return None
    a = rng.choice(["ReLU", "Sigmoid", "Softplus", "SiLU", "Tanh", "ELU", "LeakyReLU", "GELU", "CELU"])
    kw = {}
    args = []
    if a == "ELU" and rng.random() < .6:
        if rng.random() < .5:
            args = [rng.choice([0.5, 2.0])]
        else:
            kw = {"alpha": rng.choice([0.5, 2.0])}
    if a == "LeakyReLU" and rng.random() < .6:
        kw = {"negative_slope": rng.choice([0.5, 0.125])}
    if a == "GELU" and rng.random() < .6:
        kw = {"approximate": rng.random() < .5}
    m = {"m": a, "kw": kw}
    if args:
        m["args"] = args
    return m, t, t


def g_bias(rng, t):
    t = t or gen_type(rng)
    kw = {}
    mag(rng, kw)
    out = t
    x = rng.random()
    if x < .25:
        kw["scalar"] = True
        if rng.random() < .4:
            kw["bias"] = rng.choice([0.5, 2.0, -1.25])
    elif x < .5:
        same = len({tuple(l["s"]) for _, l in leaves(t)}) == 1
        if same and rng.random() < .5:
            kw["bias"] = arr(rng, *leaves(t)[0][1]["s"])
        else:
            kw["bias"] = arr_tree(rng, tmap(lambda l: leaf(*l["s"]), t))
    elif x < .65:
        kw["real"] = False
        out = tmap(lambda l: leaf(*l["s"], c=1), t)
    opt(rng, .2, kw, "trainable", rng.random() < .5)
    return {"m": "Bias", "kw": kw}, t, out


def g_prelu(rng, t):
    t = t or gen_type(rng)
    if any(x["c"] for _, x in leaves(t)):
        return None
    kw = {}
    opt(rng, .5, kw, "single_parameter", rng.random() < .4)
    mag(rng, kw)
    return {"m": "PReLU", "kw": kw}, t, t


def refactor(rng, s):
    """another shape with as many elements"""
    n = size(s)
    out = []
    for p in (2, 3, 2, 3):
        if n % p == 0 and rng.random() < .5:
            out.append(p); n //= p
    out.append(n)
    rng.shuffle(out)
    if rng.random() < .3:
        out.insert(rng.randrange(len(out) + 1), 1)
    return out[:]


def g_reshape(rng, t):
    t = t or gen_type(rng, nd=rng.choice([1, 2, 3]))
    if rng.random() < .05:
        return {"m": "Reshape", "kw": {}}, t, t
    out = tmap(lambda l: leaf(*(refactor(rng, l["s"])), c=l["c"]), t)
    def val(o):
        if is_leaf(o):
            s = list(o["s"])
            if rng.random() < .4:
                s[rng.randrange(len(s))] = -1
            return {"tup": s}
        if "d" in o:
            return {"dict": [[k, val(x)] for k, x in o["d"]]}
        return {"tup": [val(x) for x in o["u"]]} if "u" in o else [val(x) for x in o["l"]]
    return {"m": "Reshape", "kw": {"shape": val(out)}}, t, out


def g_flatten(rng, t):
    t = t or gen_type(rng, nd=rng.choice([1, 2, 3]))
    return {"m": "Flatten", "kw": {}}, t, tmap(lambda l: leaf(size(l["s"]), c=l["c"]), t)


def one1d(rng, t):
    t = t or single(rng, leaf(rng.randrange(1, 4)))
    ls = leaves(t)
    if len(ls) != 1 or len(ls[0][1]["s"]) != 1 or ls[0][1]["c"]:
        return None, None
    return t, ls[0][1]["s"][0]


def g_affherm(rng, t):
    t, p = one1d(rng, t)
    if t is None:
        return None
    n = rng.randrange(2, 5)
    kw = dict(matrix_size=n)
    mag(rng, kw)
    bt = rng.random() < .7
    opt(rng, 1 if not bt else .3, kw, "bias_term", bt)
    opt(rng, .3, kw, "smoothing", rng.choice([0.0, 0.5]))
    c = 1
    if rng.random() < .3:
        kw["Ms"] = arr(rng, p + (1 if bt else 0), n, n, c=1, herm=1)
        opt(rng, 0, kw, "x", 1)
    return {"m": "AffineHermitianMatrix", "kw": kw}, t, tmap(lambda l: leaf(n, n, c=c), t)


def g_lowrank(rng, t):
    t, p = one1d(rng, t)
    if t is None:
        return None
    n = rng.randrange(2, 5)
    kw = dict(matrix_size=n, matrix_rank=rng.randrange(1, n + 1))
    kw["init_magnitude"] = rng.choice([0.5, 1.0])
    opt(rng, .4, kw, "bias_term", rng.random() < .5)
    opt(rng, .3, kw, "smoothing", rng.choice([0.0, 0.5]))
    return {"m": "LowRankAffineHermitianMatrix", "kw": kw}, t, tmap(lambda l: leaf(n, n, c=1), t)


def g_afften(rng, t):
    t, p = one1d(rng, t)
    if t is None:
        return None
    s = dims(rng)
    kw = dict(tensor_shape={"tup": s})
    mag(rng, kw)
    bt = rng.random() < .7
    opt(rng, 1 if not bt else .3, kw, "bias_term", bt)
    c = 0
    if rng.random() < .3:
        kw["Ms"] = arr(rng, p + (1 if bt else 0), *s)
    elif rng.random() < .3:
        kw["real"] = False; c = 1
    return {"m": "AffineTensor", "kw": kw}, t, tmap(lambda l: leaf(*s, c=c), t)


def g_affeig(rng, t):
    t, p = one1d(rng, t)
    if t is None:
        return None
    n = rng.randrange(2, 5)
    k = rng.randrange(1, n + 1)
    kw = dict(matrix_size=n, num_eig=k, init_magnitude=rng.choice([0.5, 1.0]))
    opt(rng, .7, kw, "which", rng.choice(WHICH))
    opt(rng, .3, kw, "smoothing", rng.choice([0.0, 0.5]))
    bt = rng.random() < .7
    opt(rng, 1 if not bt else .3, kw, "bias_term", bt)
    if rng.random() < .3:
        kw["Ms"] = arr(rng, p + (1 if bt else 0), n, n, c=1, herm=1)
    return {"m": "AffineEigenvaluePMM", "kw": kw}, t, tmap(lambda l: leaf(k), t)


def g_affobs(rng, t):
    t, p = one1d(rng, t)
    if t is None:
        return None
    n = rng.randrange(2, 5)
    k = rng.randrange(1, n + 1)
    q, l = rng.randrange(1, 4), rng.randrange(1, 3)
    kw = dict(matrix_size=n, num_eig=k, output_size=q, init_magnitude=rng.choice([0.5, 1.0]))
    opt(rng, .6, kw, "which", rng.choice(WHICH))
    opt(rng, .6, kw, "num_secondaries", l)
    l = kw.get("num_secondaries", 1)
    opt(rng, .4, kw, "centered", rng.random() < .5)
    opt(rng, .4, kw, "bias_term", rng.random() < .5)
    opt(rng, .5, kw, "use_expectation_values", rng.random() < .6)
    opt(rng, .2, kw, "smoothing", rng.choice([0.0, 0.5]))
    ab = rng.random() < .7
    opt(rng, 1 if not ab else .3, kw, "affine_bias_matrix", ab)
    if rng.random() < .25:
        kw["Ms"] = arr(rng, p + (1 if ab else 0), n, n, c=1, herm=1)
    if rng.random() < .25:
        kw["Ds"] = arr(rng, q, l, n, n, c=1, herm=1)
    return {"m": "AffineObservablePMM", "kw": kw}, t, tmap(lambda x: leaf(q), t)


def g_eig(rng, t):
    if t is None:
        t = rng.choice([single(rng, leaf(3, 3, c=1)), {"l": [leaf(2, 2, c=1), leaf(3, 3, c=1)]},
                        {"d": [["a", leaf(4, 4, c=1)], ["b", leaf(2, 2, c=1)]]}])
        t = {"herm": t}
    herm = t.get("herm")
    if herm is None:
        return None
    n = min(l["s"][0] for _, l in leaves(herm))
    kw = {}
    k = 1
    if rng.random() < .7:
        k = rng.choice([None] + list(range(1, n + 1)))
        kw["num_eig"] = k
    opt(rng, .7, kw, "which", rng.choice(WHICH))
    kind = rng.choice(["Eigenvalues", "Eigenvectors", "Eigensystem"])
    kk = lambda l: l["s"][0] if k is None else k
    ev = tmap(lambda l: leaf(kk(l)), herm)
    vec = tmap(lambda l: leaf(l["s"][0], kk(l), c=1), herm)
    out = ev if kind == "Eigenvalues" else vec if kind == "Eigenvectors" else {"d": [["eigenvalues", ev], ["eigenvectors", vec]]}
    return {"m": kind, "kw": kw}, t, out


def g_obs(rng, t):
    t = t or single(rng, leaf(rng.randrange(2, 5), rng.randrange(1, 4), c=rng.choice([0, 1])))
    ls = leaves(t)
    if len(ls) != 1 or len(ls[0][1]["s"]) != 2:
        return None
    n = ls[0][1]["s"][0]
    q, l = rng.randrange(1, 4), rng.randrange(1, 3)
    kw = dict(num_observables=l, output_size=q)
    mag(rng, kw)
    opt(rng, .5, kw, "centered", rng.random() < .5)
    if rng.random() < .3:
        kw["Ds"] = arr(rng, q, l, n, n, c=1, herm=1)
        if rng.random() < .5:
            kw.pop("num_observables"); kw.pop("output_size")
    return {"m": rng.choice(["TransitionAmplitudeSum", "ExpectationValueSum"]), "kw": kw}, t, tmap(lambda x: leaf(q), t)


def path_str(p, sep):
    return sep.join(p)


def g_matmul(rng, t):
    if t is None:
        k = rng.choice([1, 1, 2, 2, 3])
        ds = [rng.randrange(1, 4) for _ in range(k + 1)]
        ms = [leaf(ds[i], ds[i + 1]) for i in range(k)]
        if rng.random() < .4:
            ms[-1] = leaf(ds[k - 1])
        order = list(range(k)); rng.shuffle(order)
        if k == 1 and rng.random() < .6:
            t, chain = ms[0], [[]]
        else:
            kind = rng.choice("dlu")
            put = [ms[i] for i in order]
            if kind == "d":
                ks = sorted(rng.sample(["a", "b", "c", "x"], k))
                t = {"d": [[a, x] for a, x in zip(ks, put)]}
                nm = ks
            else:
                t = {kind: put}; nm = [str(i) for i in range(k)]
            chain = [[nm[order.index(i)]] for i in range(k)]
    else:
        ls = leaves(t)
        if len(ls) != 1 or len(ls[0][1]["s"]) not in (1, 2):
            return None
        chain = [ls[0][0]]
    byp = {tuple(p): l for p, l in leaves(t)}
    sh = [byp[tuple(p)]["s"] for p in chain]
    c = max(l["c"] for l in byp.values())
    kw = {}
    vec = len(sh[-1]) == 1
    mode = rng.choice(["none", "train", "train", "fixed"])
    if vec and len(sh) == 1 and mode == "none":
        mode = "train"
    pos = None
    if mode != "none":
        places = [i for i in range(len(sh) + 1) if not (vec and i == len(sh))]
        pos = 0 if rng.random() < .5 else rng.choice(places)
        if pos == 0:
            ps = [rng.randrange(1, 4), sh[0][0]]
        elif pos == len(sh):
            ps = [sh[-1][1], rng.randrange(1, 4)]
        else:
            ps = [sh[pos - 1][1], sh[pos][0]]
        full = sh[:pos] + [ps] + sh[pos:]
        if mode == "fixed":
            kw["params"] = arr(rng, *ps)
        else:
            kw["trainable"] = True
            mag(rng, kw)
            if rng.random() < .2:
                kw["real"] = False; c = 1
            if rng.random() < .2:
                kw["params"] = arr(rng, *ps, c=c if kw.get("real") is False else 0)
    else:
        full = sh
    out = [full[0][0]] + ([full[-1][1]] if len(full[-1]) == 2 else [])
    if mode == "train" and "params" not in kw and pos == 0:
        kw["output_shape"] = out[0] if len(out) == 1 else {"tup": out}
    elif mode == "train" and "params" not in kw and pos == len(sh):
        kw["output_shape"] = {"tup": out}
    elif rng.random() < .4:
        kw["output_shape"] = {"tup": out}
    natural = [p for p, _ in leaves(t)]
    sep = rng.choice([".", ".", "/", "->"])
    if chain != natural or (pos not in (None, 0)) or rng.random() < .3:
        if chain == [[]]:
            if pos not in (None, 0):
                return None          # a bare array has no path to name
        else:
            po = [path_str(p, sep) for p in chain]
            if pos is not None:
                po.insert(pos, sep + sep)
            kw["path_order"] = po
            if sep != ".":
                kw["separator"] = sep
    return {"m": "MatMul", "kw": kw}, t, leaf(*out, c=c)


def g_einsum(rng, t):
    t = t or gen_type(rng, depth=1, nd=rng.choice([1, 2]))
    ls = leaves(t)
    if len(ls) > 3 or any(len(l["s"]) > 3 for _, l in ls):
        return None
    letters = list("abcdefghijkl")
    rng.shuffle(letters)
    size_of = {}
    terms = []
    for _, l in ls:
        w = ""
        for n in l["s"]:
            old = [x for x in size_of if size_of[x] == n and x not in w]
            x = rng.choice(old) if old and rng.random() < .5 else letters.pop()
            size_of[x] = n
            w += x
        terms.append(w)
    lead = []
    for _ in range(rng.choice([0, 0, 1, 1, 2])):
        w = ""
        for _ in range(rng.randrange(1, 3)):
            pool = [x for x in size_of if x not in w]
            x = rng.choice(pool) if pool and rng.random() < .7 else letters.pop()
            size_of.setdefault(x, rng.randrange(1, 4))
            w += x
        lead.append(w)
    allw = "".join(lead + terms)
    infer = rng.random() < .25
    if infer:
        out = "".join(sorted(x for x in set(allw) if allw.count(x) == 1))
    else:
        cand = sorted(set(allw)); rng.shuffle(cand)
        out = "".join(cand[:rng.randrange(1, 4)])
    if not out:
        return None
    form = rng.choice(["str", "str", "tree", "tree"])
    kw = {}
    def wtree(o, it):
        if is_leaf(o):
            return next(it)
        if "d" in o:
            return {"dict": [[k, wtree(x, it)] for k, x in o["d"]]}
        return {"tup": [wtree(x, it) for x in o["u"]]} if "u" in o else [wtree(x, it) for x in o["l"]]
    if form == "str" or is_leaf(t):
        kw["einsum_str"] = ",".join(lead + terms) + ("" if infer else "->" + out)
    else:
        tr = wtree(t, iter(terms))
        if "u" in t and not lead and infer and len(ls) in (2, 3):
            pass            # a bare tuple of strings of the same structure as the input is fine as well
        parts = ([",".join(lead)] if lead else []) + [tr] + ([] if infer else [out])
        kw["einsum_str"] = {"tup": parts} if len(parts) > 1 else tr
    c = max(l["c"] for _, l in ls)
    if lead:
        shapes = [[size_of[x] for x in w] for w in lead]
        mode = rng.choice(["train", "train", "given", "fixed"])
        vals = [arr(rng, *s) for s in shapes]
        if mode == "fixed":
            kw["params"] = vals[0] if len(vals) == 1 else {"tup": vals}
        else:
            kw["trainable"] = True
            mag(rng, kw)
            if mode == "given":
                kw["params"] = vals[0] if len(vals) == 1 else {"tup": vals}
            else:
                free = {x: size_of[x] for w in lead for x in w if not any(x in y for y in terms)}
                if free:
                    kw["dim_map"] = {"dict": [[k, v] for k, v in sorted(free.items())]}
                if rng.random() < .2:
                    kw["real"] = False; c = 1
    return {"m": "Einsum", "kw": kw, "parts": len(parts) if form == "tree" and not is_leaf(t) else 0}, t, leaf(*[size_of[x] for x in out], c=c)


def g_constant(rng, t):
    t = t or gen_type(rng)
    out = gen_type(rng, depth=1)
    kw = {}
    if rng.random() < .5:
        kw["constant"] = arr_tree(rng, out)
        opt(rng, .5, kw, "trainable", rng.random() < .6)
    else:
        kw["trainable"] = True
        kw["shape"] = shape_value(out)
        mag(rng, kw)
        if rng.random() < .3:
            kw["real"] = False
            out = tmap(lambda l: leaf(*l["s"], c=1), out)
    opt(rng, .3, kw, "name", rng.choice(["K", "const"]))
    return {"m": "Constant", "kw": kw}, t, out


def g_comment(rng, t):
    t = t or gen_type(rng)
    return {"m": "Comment", "kw": rng.choice([{}, {"comment": "a note"}])}, t, t


def subtrees(t, path=()):
    out = [(list(path), t)]
    if not is_leaf(t):
        items = t["d"] if "d" in t else [[str(i), x] for i, x in enumerate(t.get("l", t.get("u")))]
        for k, x in items:
            out += subtrees(x, path + (k,))
    return out


def g_treekey(rng, t):
    t = t or gen_type(rng)
    if is_leaf(t):
        return None
    sep = rng.choice([".", ".", "/", "->"])
    st = [x for x in subtrees(t) if x[0]]
    form = rng.choice("sdlu")
    pick = [rng.choice(st) for _ in range(1 if form == "s" else rng.randrange(1, 4))]
    ps = [path_str(p, sep) for p, _ in pick]
    if form == "s":
        kp, out = ps[0], pick[0][1]
    elif form == "d":
        ks = sorted(rng.sample(["p", "q", "r", "s"], len(ps)))
        kp, out = {"dict": [[k, p] for k, p in zip(ks, ps)]}, {"d": [[k, x] for k, (_, x) in zip(ks, pick)]}
    else:
        kp, out = (ps if form == "l" else {"tup": ps}), {form: [x for _, x in pick]}
    kw = {"keypaths": kp}
    if sep != ".":
        kw["separator"] = sep
    return {"m": "TreeKey", "kw": kw}, t, out


def g_treeflatten(rng, t):
    t = t or gen_type(rng)
    return {"m": "TreeFlatten", "kw": {}}, t, {"l": [l for _, l in leaves(t)]}


def g_concat(rng, t):
    if t is None:
        nd = rng.choice([1, 2, 3])
        base = [rng.randrange(1, 4) for _ in range(nd)]
        ax = rng.choice([None] + list(range(nd)))
        def l():
            if ax is None:
                return leaf(*dims(rng))
            s = list(base); s[ax] = rng.randrange(1, 4)
            return leaf(*s)
        n = rng.randrange(1, 4)
        kind = rng.choice("dlun")
        if kind == "n":
            t = {"d": [["a", l()], ["b", {"l": [l(), l()]}]]}
        elif kind == "d":
            t = {"d": [[k, l()] for k in sorted(rng.sample(["a", "b", "c", "x"], n))]}
        else:
            t = {kind: [l() for _ in range(n)]}
    else:
        ax = None
        if is_leaf(t):
            return None
    ls = leaves(t)
    nd = len(ls[0][1]["s"])
    kw = {}
    if ax is not None:
        kw["axis"] = ax if rng.random() < .6 else ax - nd
    chosen = ls
    if rng.random() < .5:
        sep = rng.choice([".", ".", "/"])
        chosen = list(ls); rng.shuffle(chosen)
        if rng.random() < .3:
            chosen = chosen[:rng.randrange(1, len(chosen) + 1)]
        po = [path_str(p, sep) for p, _ in chosen]
        kw["path_order"] = po if rng.random() < .5 else {"tup": po}
        if sep != ".":
            kw["separator"] = sep
    if ax is None:
        out = [sum(size(l["s"]) for _, l in chosen)]
    else:
        out = list(chosen[0][1]["s"]); out[ax] = sum(l["s"][ax] for _, l in chosen)
    return {"m": "ConcatenateLeaves", "kw": kw}, t, leaf(*out, c=max(l["c"] for _, l in chosen))


def g_meter(rng, t):
    t = t or gen_type(rng)
    if any(x["c"] for _, x in leaves(t)):
        return None
    return {"m": "Meter", "kw": {"gain": rng.choice([0.5, 0.25])}}, t, t


def g_noise(rng, t):
    t = t or gen_type(rng)
    if any(x["c"] for _, x in leaves(t)):
        return None
    return {"m": "Noise", "kw": {"size": rng.choice([0.5, 0.25])}}, t, t


GENS = dict(Meter=g_meter, Noise=g_noise, LinearNN=g_linear, Act=g_act, Bias=g_bias, PReLU=g_prelu, Reshape=g_reshape, Flatten=g_flatten,
            AffineHermitianMatrix=g_affherm, LowRank=g_lowrank, AffineTensor=g_afften, AffineEigenvaluePMM=g_affeig,
            AffineObservablePMM=g_affobs, Eig=g_eig, Obs=g_obs, MatMul=g_matmul, Einsum=g_einsum, Constant=g_constant,
            Comment=g_comment, TreeKey=g_treekey, TreeFlatten=g_treeflatten, ConcatenateLeaves=g_concat)


def untag(t):
    return t["herm"] if "herm" in t else t


def gen_module(rng, kind=None, t=None):
    """-> (module, input type, output type); the input type may be tagged {"herm": type}"""
    while True:
        k = kind or rng.choice(list(GENS))
        r = GENS[k](rng, t if t is None or k == "Eig" else untag(t))
        if r:
            return r
        if kind and t is not None:
            return None


def small(t):
    return sum(size(l["s"]) for _, l in leaves(t)) <= 40 and len(leaves(t)) <= 6


def gen_chain(rng, n, t=None, first=None):
    """n modules that fit together"""
    ms = []
    tin = t
    cur = t
    while len(ms) < n:
        kind = first if not ms and first else None
        r = None
        for _ in range(40):
            r = gen_module(rng, kind or rng.choice(list(GENS)), cur)
            if r and small(r[2]) and (kind or r[0]["m"] not in ("Comment",)):
                break
            r = None
        if r is None:
            break
        m, ti, to = r
        if tin is None:
            tin = ti
        ms.append(m)
        # affine matrices and their bias-free companions are Hermitian
        cur = {"herm": to} if m["m"] in ("AffineHermitianMatrix", "LowRankAffineHermitianMatrix") and rng.random() < .8 else untag(to)
    return ms, tin, untag(cur)


def gen_model(rng, depth=1, first=None, t=None, n=None):
    """-> (model description, input type, output type)"""
    ms, tin, tout = gen_chain(rng, n or rng.choice([1, 2, 2, 3, 4]), t, first)
    mods = list(ms)
    if depth and len(mods) >= 2 and rng.random() < .35:      # wrap a stretch into an inner model
        a = rng.randrange(len(mods)); b = rng.randrange(a + 1, len(mods) + 1)
        mods[a:b] = [wrap(rng, mods[a:b])]
    return wrap(rng, mods), tin, tout


def wrap(rng, mods):
    if rng.random() < .3:
        names = rng.sample(["m", "m1", "enc", "dec", "head", "inputs", "output_x", "z"], len(mods))
        return {"m": "ns", "names": names, "mods": mods, "group": rng.random() < .3 and len(mods) > 1}
    return {"m": "seq", "kind": rng.choice(["l", "l", "u", "d"]), "mods": mods}
