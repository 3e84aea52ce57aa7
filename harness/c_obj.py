"""C06 (saving and loading), C17 (determinism): histories of model objects."""
import json
import lib, zoo

CFG = "INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nCONSTANTS Depth={d}\n"
INV = "INVARIANT Functional\nINVARIANT TrainOnly\nPROPERTY Independent\nPROPERTY PassedOn\n"
HOWS = ["file", "zip", "copy", "dict", "nosuffix", "path", "io", "twice", "into"]
KINDS = list(zoo.GENS)


def random_init(d):
    """does the description draw parameters of more than one number at compilation?"""
    if d["m"] in ("seq", "ns"):
        return any(random_init(x) for x in d["mods"])
    m, kw = d["m"], d["kw"]
    if m in ("LinearNN", "LowRankAffineHermitianMatrix"):
        return True
    if m in ("AffineHermitianMatrix", "AffineTensor", "AffineEigenvaluePMM"):
        return "Ms" not in kw
    if m == "AffineObservablePMM":
        return True if "Ms" not in kw or "Ds" not in kw else False
    if m in ("TransitionAmplitudeSum", "ExpectationValueSum"):
        return "Ds" not in kw
    if m in ("Einsum", "MatMul"):
        return bool(kw.get("trainable")) and "params" not in kw
    if m == "Bias":
        return "bias" not in kw
    if m == "PReLU":
        return True
    if m == "Constant":
        return "constant" not in kw
    return False


def scenario(rng, hist, kind=None, x64=False):
    d, tin, tout = zoo.gen_model(rng, first=kind)
    o, otin, _ = zoo.gen_model(rng, n=1)
    for h in hist:
        if h["op"] == "pass":
            h.setdefault("how", rng.choice(HOWS))
        if h["op"] == "mark":
            h["a"] = rng.choice("0123") + h["a"][-1]
    return dict(model=d, tin=tin, other=o, otin=otin, hist=hist, dseed=rng.randrange(1000), rand=random_init(d), x64=x64)


def rand_hist(rng, n, x64=False, passes=.3):
    """random history of up to three slots, following the enabledness of the specification"""
    h = [dict(op="new", s=1, a="1")]
    st = {1: dict(ready=False, opt=False)}
    while len(h) < n:
        s = rng.choice(list(st))
        o = st[s]
        x = rng.random()
        if x < passes:
            t = rng.choice([q for q in (1, 2, 3) if q != s])
            h.append(dict(op="pass", s=s, a="", t=t)); st[t] = dict(o)
        elif x < passes + .08 and len(st) < 3:
            t = min(q for q in (1, 2, 3) if q not in st)
            h.append(dict(op="new", s=t, a="1")); st[t] = dict(ready=False, opt=False)
        elif x < passes + .12:
            h.append(dict(op="noise", s=s, a=""))
        elif not o["ready"]:
            if rng.random() < .75:
                h.append(dict(op="compile", s=s, a=rng.choice("112"))); o["ready"] = True
            else:
                h.append(dict(op="mark", s=s, a="0" + rng.choice("ftt")) if rng.random() < .7 else dict(op="key", s=s, a="5"))
        else:
            op = rng.choice(["train", "resume", "resume", "mark", "mark", "assign", "feed", "key", "peek", "compile"] +
                            (["cast"] * 2 if x64 else []))
            if op == "resume" and not o["opt"]:
                op = "train"
            a = {"train": rng.choice("12"), "resume": rng.choice("12"), "mark": "0" + rng.choice("ft"), "assign": rng.choice("02"),
                 "feed": rng.choice("12"), "key": rng.choice("56"), "peek": "", "compile": "7", "cast": rng.choice(["32", "64"])}[op]
            h.append(dict(op=op, s=s, a=a))
            if op == "train":
                o["opt"] = True
    return h


def pass_then(rng, x64=False):
    """a short life, a hand-over, then the same life on both"""
    h = [dict(op="new", s=1, a="1")]
    pre = rng.choice([[], ["compile"], ["compile"], ["compile", "train"], ["compile", "assign", "mark"], ["mark", "compile"], ["mark"],
                      ["compile", "feed"], ["compile", "train", "mark"]])
    arg = lambda op: {"mark": "0" + rng.choice("ft"), "compile": "1", "cast": rng.choice(["32", "64"])}.get(op, "1")
    for op in pre:
        h.append(dict(op=op, s=1, a=arg(op)))
    h.append(dict(op="pass", s=1, a="", t=2))
    ready = "compile" in pre
    post = [] if ready else ["compile"]
    post += rng.choice([["train"], ["resume"] if "train" in pre else ["train"], ["feed", "peek"], ["assign"], ["mark", "train"], ["peek"]])
    if x64 and rng.random() < .5:
        post.insert(0 if ready else 1, "cast")
    args = [arg(op) for op in post]
    for s in rng.sample([1, 2], 2):
        for op, a in zip(post, args):
            h.append(dict(op=op, s=s, a=a))
    return h


def twins(rng, x64=False):
    """two or three objects built and treated alike, with other things happening in between"""
    ops = ["compile"] + rng.sample(["train", "feed", "assign", "key", "peek", "mark"], rng.randrange(1, 3))
    args = [dict(op=o, a={"mark": "0f", "compile": "3"}.get(o, "1")) for o in ops]
    h = [dict(op="new", s=1, a="1"), dict(op="new", s=2, a="1")]
    q = {1: list(args), 2: list(args)}
    while q[1] or q[2]:
        s = rng.choice([i for i in q if q[i]])
        h.append(dict(q[s].pop(0), s=s))
        if rng.random() < .3:
            h.append(dict(op="noise", s=s, a=""))
        if rng.random() < .2:
            h.append(dict(op="pass", s=s, a="", t=3, how=rng.choice(["copy", "file"])))
            h.append(dict(op="pass", s=3, a="", t=s, how=rng.choice(["copy", "zip"])))
    h += [dict(op="new", s=3, a="1"), dict(op="compile", s=3, a="4")]
    return h


def taps_tree(rng, n, depth=2):
    """containers of modules that show which random key they were given"""
    mods = []
    while n > 0:
        k = rng.randrange(1, n + 1)
        if depth and rng.random() < .5:
            mods.append(taps_tree(rng, k, depth - 1)); n -= k
        else:
            mods.append({"m": "KeyTap", "kw": {}}); n -= 1
    return zoo.wrap(rng, mods)


def taps(rng):
    n = rng.randrange(2, 6)
    h = [dict(op="new", s=1, a="1"), dict(op="compile", s=1, a="1"), dict(op="new", s=2, a="1"),
         rng.choice([dict(op="pass", s=1, a="", t=3), dict(op="key", s=1, a="5"), dict(op="noise", s=1, a="")]),
         dict(op="compile", s=2, a=rng.choice("12")), dict(op="key", s=2, a="5")]
    s = scenario(rng, h)
    s.update(model=taps_tree(rng, n), tin=zoo.leaf(2), rand=True, taps=n)
    return s


def common(ck, depth):
    lib.model_check("MCObjects", CFG.format(d=depth) + INV, ck.stats)
    beh, total = lib.behaviours("MCObjects", CFG.format(d=5) + "INVARIANT Dump\n", ck.stats)
    ck.stats.extra["spec_behaviours_enumerated"] = total
    return beh


def c06(ck):
    rng = ck.rng
    beh = [b for b in common(ck, ck.pick(5, 7)) if any(h["op"] == "pass" for h in b[:-1])]
    scns = []
    for i, k in enumerate(KINDS):                      # every module kind, compiled or not, every way of handing over
        for j in range(ck.pick(2, 14)):
            x64 = rng.random() < .2
            h = pass_then(rng, x64) if j else pass_then(rng, x64)
            for e in h:
                if e["op"] == "pass":
                    e["how"] = HOWS[(i + j) % len(HOWS)]
            scns.append(scenario(rng, h, k, x64))
    for b in rng.sample(beh, min(len(beh), ck.pick(16, 600))):
        scns.append(scenario(rng, b, rng.choice(KINDS + [None])))
    for _ in range(ck.pick(10, 400)):
        x64 = rng.random() < .3
        scns.append(scenario(rng, rand_hist(rng, rng.randrange(5, 11), x64), rng.choice(KINDS + [None]), x64))
    judge(ck, scns)


def c17(ck):
    rng = ck.rng
    beh = [b for b in common(ck, ck.pick(5, 7)) if sum(h["op"] == "compile" for h in b) >= 2]
    scns = []
    for i, k in enumerate(KINDS):
        for j in range(ck.pick(1, 10)):
            scns.append(scenario(rng, twins(rng), k))
    scns += [taps(rng) for _ in range(ck.pick(8, 150))]
    for b in rng.sample(beh, min(len(beh), ck.pick(12, 400))):
        scns.append(scenario(rng, b, rng.choice(KINDS + [None])))
    for _ in range(ck.pick(12, 400)):
        scns.append(scenario(rng, rand_hist(rng, rng.randrange(6, 11), passes=.15), rng.choice(["Noise", "Meter", "LinearNN", None])))
    judge(ck, scns)


def judge(ck, scns):
    a = [s for s in scns if not s["x64"]]
    b = [s for s in scns if s["x64"]]
    ck.run_and_judge("drv_obj", "ObjectsTrace", a, key=lambda s, r: s.get("finding"))
    if b:
        ck.run_and_judge("drv_obj", "ObjectsTrace", b, key=lambda s, r: s.get("finding"), extra_env={"JAX_ENABLE_X64": "1"})
