"""C08: predictions with batch limits."""
import lib, zoo

CFG = "INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nCONSTANTS Depth={d} MaxN={n} Free={f} Greedy={g}\n"
INV = "INVARIANT InOrder\nINVARIANT OnePass\nINVARIANT Relation\nPROPERTY OnlyAsked\n"
LAYOUTS = ["one", "two", "nested", "graph", "named", "deep"]
SAFE = [k for k in zoo.GENS if k not in ("Meter", "Noise")]


def touchy(d):
    """results that jump under rounding: the phase of an eigenvector, the choice between equal magnitudes"""
    if d["m"] in ("seq", "ns"):
        return any(touchy(x) for x in d["mods"])
    return d["m"] in ("Eigenvectors", "Eigensystem", "Meter", "Noise") or str(d["kw"].get("which", "")).upper().endswith("M")


def gen_type(rng, deep=2):
    if deep == 0 or rng.random() < .4:
        return zoo.leaf(*rng.choice([[1], [2], [3], [2, 2], [1, 2, 1], []]))
    kids = [gen_type(rng, deep - 1) for _ in range(rng.choice([1, 2, 2, 3]))]
    if rng.random() < .6:
        return {"d": [[k, t] for k, t in zip(sorted(rng.sample(["a", "b", "c", "log2"], len(kids))), kids)]}
    return {rng.choice("lu"): kids}


def call(rng, n, mbs, upd, av, exact):
    ids = list(range(1, n + 1))
    if rng.random() < .6:
        ids = [rng.randrange(1, 9) for _ in range(n)]
    return dict(op="call", ids=ids, mbs=mbs, upd=upd and exact, ret=rng.random() < .4, av=av, verbose=rng.random() < .15,
                key=rng.choice([-1, -1, -1, 0, 5]) if exact else -1, dt=rng.choice(["", "f4", "f4"]))


def scenario(rng, hist, exact):
    s = dict(exact=exact, seed=rng.randrange(10 ** 6))
    if exact:
        s["tin"] = gen_type(rng); s["layout"] = rng.choice(LAYOUTS)
    else:
        while True:
            d, tin, tout = zoo.gen_model(rng, first=rng.choice(SAFE))
            if not touchy(d):
                break
        s["model"], s["tin"] = d, tin
    out = []
    for h in hist:
        if h["op"] == "call":
            out.append(h if "ids" in h else call(rng, h["n"], h["mbs"], h["upd"], h["av"], exact))
        else:
            out.append(dict(op="set", what=rng.choice(["par", "par", "st", "key", "compile"] if exact else ["par"])))
    s["hist"] = out
    return s


def rand_hist(rng, exact):
    h = []
    for _ in range(rng.randrange(2, 6)):
        if rng.random() < .25:
            h.append(dict(op="set"))
        else:
            n = rng.choice([1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12])
            h.append(call(rng, n, rng.choice([0, 1, 2, 3, 4, 5, n, n + 1, max(1, n - 1), n // 2 + 1]), rng.random() < .4, rng.random() < .4, exact))
    h.append(call(rng, rng.randrange(1, 9), rng.choice([0, 1, 2, 3, 4]), False, rng.random() < .3, exact))
    return h


def c08(ck):
    rng = ck.rng
    lib.model_check("MCBatching", CFG.format(d=1, n=ck.pick(6, 7), f="TRUE", g="FALSE") + INV, ck.stats)
    lib.model_check("MCBatching", CFG.format(d=ck.pick(2, 3), n=ck.pick(4, 3), f="FALSE", g="FALSE") + INV, ck.stats)
    beh, total = lib.behaviours("MCBatching", CFG.format(d=2, n=5, f="FALSE", g="TRUE") + "INVARIANT Dump\n", ck.stats)
    ck.stats.extra["spec_behaviours_enumerated"] = total
    ck.stats.extra["calls_count_limit_option"] = len({(h["n"], h["mbs"], h["av"], h["upd"]) for b in beh for h in b if h["op"] == "call"})
    scns = [scenario(rng, b, True) for b in rng.sample(beh, min(len(beh), ck.pick(90, 2500)))]
    scns += [scenario(rng, rand_hist(rng, True), True) for _ in range(ck.pick(70, 2500))]
    scns += [scenario(rng, rand_hist(rng, False), False) for _ in range(ck.pick(50, 2000))]
    ck.run_and_judge("drv_batch", "BatchingTrace", scns)
