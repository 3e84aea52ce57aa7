"""C18: gradients."""
import lib, zoo
from c_batch import touchy, gen_type

CFG = "INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nCONSTANTS Depth={d} MaxN=5\nCONSTANT Vals <- GV\nCONSTANT Kinds <- GK\n"
LAYOUTS = ["list", "tuple", "named", "nested", "graph", "deep"]
SAFE = [k for k in zoo.GENS if k not in ("Meter", "Noise", "Eig", "Obs", "AffineObservablePMM")]


def ints(rng, n, lo=-2, hi=2):
    return [rng.choice([v for v in range(lo, hi + 1)]) for _ in range(n)]


def lin(rng, k, m):
    return dict(k="lin", W=[ints(rng, k) for _ in range(m)], b=ints(rng, m))


def width(t):
    return sum(zoo.size(x["s"]) for _, x in zoo.leaves(t))


def other(rng, d, k):
    """another module with the input width k and the output width of d"""
    if d["k"] == "lin":
        return lin(rng, k, len(d["b"]))
    return rng.choice([dict(k="sq", a=ints(rng, k, 1, 3)), lin(rng, k, k)])


def exact(rng, hist):
    while True:
        tin, tout = gen_type(rng, 1), gen_type(rng, 1)
        if width(tin) <= 4 and width(tout) <= 4 and tin.get("s") != [] and tout.get("s") != []:
            break
    w, mods, sq = width(tin), [], 0
    ws = []
    for _ in range(rng.choice([0, 1, 1, 2, 2])):
        k = rng.choice(["lin", "sq", "gate"])
        ws.append(w)
        if k == "sq" and sq < 2:
            mods.append(dict(k="sq", a=ints(rng, w, -2, 2))); sq += 1
        elif k == "gate":
            mods.append(dict(k="gate", g=rng.choice([1, 2, 3])))
        else:
            m = rng.choice([1, 2, 3]); mods.append(lin(rng, w, m)); w = m
    ws.append(w); mods.append(lin(rng, w, width(tout)))
    if rng.random() < .5:
        mods.append(dict(k="gate", g=rng.choice([1, 2, 3]))); ws.append(width(tout))
    layout = rng.choice(LAYOUTS if len(mods) > 1 else ["list", "tuple", "named", "graph"])
    last = max(i for i, q in enumerate(mods) if q["k"] == "lin")
    s = dict(exact=True, tin=tin, tout=tout, last=last, mods=[dict(q) for q in mods], layout=layout, hist=[], seed=rng.randrange(1000))
    cur = [dict(q) for q in mods]
    data = {i: ints(rng, width(tin), -3, 3) for i in range(1, 9)}
    ready = True
    for h in hist:
        h = dict(h)
        if h["op"] == "par":
            cur = [other_values(rng, q) for q in cur]
            h["mods"] = cur
        elif h["op"] == "st":
            cur = [dict(q, g=rng.choice([1, 2, 3, -1])) if q["k"] == "gate" else q for q in cur]
            h["mods"] = cur
        elif h["op"] == "edit":
            i = rng.choice([j for j, q in enumerate(cur) if q["k"] != "gate"])
            cur = list(cur); cur[i] = lin(rng, ws[i], width(tout)) if i == last else other(rng, cur[i], ws[i])
            h["i"], h["mods"] = i, cur
        elif h["op"] in ("grad", "predict"):
            h["ids"] = call_ids(rng, h["n"]); h["xs"] = [data[i] for i in h["ids"]]
            h["ret"], h["upd"] = rng.random() < .5, rng.random() < .25
        s["hist"].append(h)
    return s


def call_ids(rng, n):
    return [rng.randrange(1, 9) for _ in range(n)] if rng.random() < .5 else list(range(1, n + 1))


def other_values(rng, q):
    if q["k"] == "lin":
        return lin(rng, len(q["W"][0]), len(q["b"]))
    return dict(q, a=ints(rng, len(q["a"]))) if q["k"] == "sq" else q


def own(rng, hist, want=None):
    while True:
        d, tin, tout = zoo.gen_model(rng, first=rng.choice(SAFE))
        if not touchy(d) and not any(k in str(d) for k in ("Eig", "Observable", "Sum")) and all(x["c"] == 0 for _, x in zoo.leaves(zoo.untag(tin))):
            break
    cout = any(x["c"] for _, x in zoo.leaves(zoo.untag(tout)))
    if want and not cout:
        return own(rng, hist, want)
    s = dict(exact=False, cout=cout, model=d, tin=tin, hist=[], seed=rng.randrange(10 ** 6))
    for h in hist:
        h = dict(h)
        if h["op"] in ("st", "edit", "compile"):
            h["op"] = "par" if rng.random() < .3 else "again"
        if h["op"] in ("grad", "predict"):
            h["ids"] = call_ids(rng, h["n"]); h["ret"] = rng.random() < .3; h["upd"] = False
        if h["op"] != "again":
            s["hist"].append(h)
    return s


def ask(rng):
    n = rng.choice([1, 2, 3, 4, 5, 6, 7])
    w = rng.choice(["input", "params", "input", "params", "predict"])
    return dict(op="predict" if w == "predict" else "grad", w=w, mode=rng.choice(["auto", "fwd", "rev"]), mbs=rng.choice([0, 1, 2, 3, n]), av=rng.random() < .4, n=n)


def rand_hist(rng, k):
    h, ready = [], True
    while len(h) < k:
        x = rng.random()
        if not ready:
            h.append(dict(op="compile")); ready = True
        elif x < .6:
            h.append(ask(rng))
        elif x < .75:
            h.append(dict(op="par"))
        elif x < .85:
            h.append(dict(op="st"))
        else:
            h.append(dict(op="edit")); ready = False
    if not ready:
        h.append(dict(op="compile"))
    return h + [ask(rng)]


def c18(ck):
    rng = ck.rng
    lib.model_check("MCGradientsRun", CFG.format(d=ck.pick(2, 3)) + "INVARIANT NoStale\nPROPERTY AskChangesNothing\n", ck.stats)
    beh, total = lib.behaviours("MCGradientsRun", CFG.format(d=2) + "INVARIANT Dump\n", ck.stats)
    ck.stats.extra["spec_behaviours_enumerated"] = total
    scns = []
    for b in rng.sample(beh, min(len(beh), ck.pick(80, 1500))):
        if b[-1]["op"] == "edit":
            b = b + [dict(op="compile")]
        scns.append(exact(rng, b + [ask(rng)]))
    scns += [exact(rng, rand_hist(rng, rng.randrange(3, 7))) for _ in range(ck.pick(60, 1500))]
    scns += [own(rng, rand_hist(rng, 4)) for _ in range(ck.pick(30, 800))]
    for _ in range(ck.pick(10, 100)):           # complex results: the mode in use must change with the mode asked for
        a = dict(ask(rng), op="grad", w=rng.choice(["input", "input", "params"]), mode="rev", av=False)
        scns.append(own(rng, [a, dict(a, mode="fwd"), dict(ask(rng), op="grad", mode="fwd", w=a["w"])], want=True))
    ck.run_and_judge("drv_grad", "GradientsTrace", scns, extra_env={"JAX_ENABLE_X64": "1"})
