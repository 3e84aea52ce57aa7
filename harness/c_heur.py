"""C24: the uncertainty heuristic and the bias correction of calibrated models."""
import lib, zoo

LAWS = ["Order", "Copies", "Least", "Far", "Shift", "Wider", "Discrete", "Unit", "Slope", "SlopeP", "MadLaws"]
CFG = "INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nCONSTANTS Top = %d Size = %d\n" + "".join(f"INVARIANT {i}\n" for i in LAWS)
HOWS = ["file", "zip", "dict", "io"]


def tree(rng, leaves):
    """a type with these leaf shapes, in order"""
    ls = [zoo.leaf(*s) for s in leaves]
    if len(ls) == 1 and rng.random() < .6:
        return ls[0]
    k = rng.choice("dlu")
    if len(ls) > 2 and rng.random() < .4:
        ls = [ls[0], {"l": ls[1:]} if rng.random() < .5 else {"d": [[n, x] for n, x in zip("pqrs", ls[1:])]}]
    return {"d": [[n, x] for n, x in zip("abcd", ls)]} if k == "d" else {k: ls}


def column(rng, n, cont):
    """training values of one entry; the range is a power of two"""
    if not cont:
        return [rng.randrange(0, 3) for _ in range(n)]
    r = rng.choice([0, 1, 2, 4, 4, 4, 8]); b = rng.randrange(-4, 5 - min(r, 4))
    c = [b, b + r] + [b + rng.randrange(0, r + 1) for _ in range(n - 2)]
    rng.shuffle(c)
    return c


def scenario(rng):
    lin = [rng.choice([[1], [2], [1], [2, 1], [3]]) for _ in range(rng.choice([1, 2, 2, 3]))]
    nin = sum(zoo.size(s) for s in lin)
    lout = [rng.choice([[1], [2], [1, 2], [3]]) for _ in range(rng.choice([1, 1, 2]))]
    nout = sum(zoo.size(s) for s in lout)
    lpar = [rng.choice([[1], [2], [2, 2], [3]]) for _ in range(rng.choice([1, 2, 3]))]
    npar = sum(zoo.size(s) for s in lpar)
    outs = []
    for o in range(nout):
        f = []
        for _ in range(rng.choice([2, 3, 4])):
            f.append(dict(c=rng.choice([-2, -1, 1, 1, 2]), p=rng.choice([0] + [rng.randrange(1, npar + 1)] * 4), xs=[rng.randrange(1, nin + 1) for _ in range(rng.choice([0, 1, 1, 2]))]))
        outs.append(f)
    # every parameter and input matters somewhere
    for p in range(1, npar + 1):
        if rng.random() < .8:
            rng.choice(outs).append(dict(c=1, p=p, xs=[rng.randrange(1, nin + 1)]))
    theta = [rng.choice([-2, -1, 1, 2, 3]) for _ in range(npar)]
    at, pos = [], 0
    for s in lin:
        at.append(list(range(pos + 1, pos + 1 + zoo.size(s)))); pos += zoo.size(s)
    cats = [rng.random() < .35 for _ in lin]
    tin, hist = tree(rng, lin), []
    unit = [1 if cats[k] else g for k, ps in enumerate(at) for g in [rng.choice([1, 1, 2, 8])] for _ in ps]

    def cal():
        n = rng.randrange(5, 12)
        use = rng.random() < .8
        train = []
        if use:
            m = rng.randrange(4, 12)
            cols = [None] * nin
            for k, ps in enumerate(at):
                for i in ps:
                    cols[i - 1] = column(rng, m, not cats[k])
            train = [[cols[i][j] for i in range(nin)] for j in range(m)]
            if rng.random() < .3:
                train.append(train[0])
        pt = lambda: [rng.choice([-3, -2, -1, 0, 1, 2, 3, 4]) if not cats[k] else rng.randrange(0, 4) for k, ps in enumerate(at) for _ in ps]
        whole = lambda k: rng.choice([True, True, False]) if rng.random() < .5 else [rng.random() < .6 for _ in range(k)]
        ps, ins, dist = whole(len(lpar)), whole(len(lin)), whole(len(lin))
        if use and dist is not False:            # at least two distinct points in what the distance sees
            see = {tuple(t[i - 1] for k, q in enumerate(at) if dist is True or dist[k] for i in q) for t in train}
            if len(see) < 2:
                dist = False
        bias = rng.choice(["none", "none", "off", "all", "strata"])
        bt = [k for k in range(len(lin)) if cats[k] and rng.random() < .7]
        if bias == "strata" and (not bt or "s" in tin):
            bias = "all"
        some = lambda v: v if isinstance(v, bool) else any(v)
        return dict(op="cal", X=[pt() for _ in range(n)], Y=[[rng.randrange(-9, 10) for _ in range(nout)] for _ in range(n)], train=train,
                    unc=[[rng.choice([0, 1, 1, 2]) for _ in range(nin)] for _ in range(n)] if use and rng.random() < .35 else [],
                    psel=ps, ins=ins, dist=dist, bias=bias, biasat=bt, pon=some(ps), ion=use and some(ins), don=use and some(dist), contarg=any(cats) or rng.random() < .3)

    def ev():
        n = rng.randrange(4, 10)
        pt = lambda: [rng.choice([-3, -2, -1, 0, 1, 2, 3, 4]) if not cats[k] else rng.randrange(0, 4) for k, ps in enumerate(at) for _ in ps]
        return dict(op="eval", X=[pt() for _ in range(n)], unc=[[rng.choice([0, 1, 2]) for _ in range(nin)] for _ in range(n)] if rng.random() < .4 else [], self_=rng.random() < .3)
    for _ in range(rng.choice([1, 1, 2])):
        hist.append(cal())
        if rng.random() < .3:
            hist.append(dict(op="pass", how=rng.choice(HOWS)))
        hist.append(ev())
    return dict(lin=lin, lout=lout, lpar=lpar, tin=tin, tout=tree(rng, lout), tpar=tree(rng, lpar), outs=outs, theta=theta, at=at, cats=cats, unit=unit, hist=hist,
                nnq=rng.choice([0, 0, 1, 1, 2, 3, 4]), mbs=rng.choice([None, None, 1, 2, 3, 50]), fwd=rng.choice([None, None, True, False]), wrap=rng.choice(["seq", "dict", "nested", "nonseq"]))


def c24(ck):
    rng = ck.rng
    lib.model_check("MCHeuristic", CFG % ck.pick((2, 2), (2, 3)), ck.stats)
    scns = [scenario(rng) for _ in range(ck.pick(64, 1500))]
    for s in scns:
        for h in s["hist"]:
            if h["op"] == "cal":
                for k in ("pon", "ion", "don"):
                    ck.stats.count(k, h[k])
                ck.stats.count("bias", h["bias"] in ("all", "strata"))
    ck.run_and_judge("drv_heur", "HeuristicTrace", scns)
