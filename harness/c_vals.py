"""C22: reading and writing parameters, state and precision."""
import lib, zoo
from c_batch import touchy

CFG = "INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nCONSTANTS Depth={d} X64={x}\n"
INV = "INVARIANT UpDown\nINVARIANT Idempotent\nPROPERTY Forgets\nPROPERTY KeepsNames\n"
BAD = ["shape", "rank", "missing", "extra", "wrap", "empty", "lastshape", "lastrank", "scalar"]
CASTS = {32: ["32", "single", "float32", "complex64", "f32", "c64", "np32", "npc64"], 64: ["64", "double", "float64", "complex128", "f64", "c128", "np64", "npc128"]}


def finish(rng, hist, x64, kind=None):
    while True:
        d, tin, _ = zoo.gen_model(rng, first=kind if kind else ("Meter" if rng.random() < .3 else None))
        if d.get("mods"):
            break
    out = []
    for h in hist:
        h = dict(h); h.setdefault("p", 0)
        if h["op"] in ("bad", "sbad"):
            h["how"] = rng.choice(BAD)
        if h["op"] == "cast":
            h["how"] = rng.choice(CASTS[h["p"]]); h["via"] = rng.choice(["set_precision", "astype"])
        out.append(h)
    return dict(model=d, tin=tin, x64=x64, hist=out, seed=rng.randrange(10 ** 6), smooth=not touchy(d))


def rand_hist(rng, n, x64):
    h, alive = [dict(op="new", s=1, a="1")], {1}
    while len(h) < n:
        s, x = rng.choice(sorted(alive)), rng.random()
        pr = rng.choice([32, 64]) if x64 else 32
        if x < .1 and len(alive) < 3:
            s = max(alive) + 1; alive.add(s); h.append(dict(op="new", s=s, a=rng.choice("12")))
        elif x < .35:
            h.append(dict(op="write", s=s, a=rng.choice("ab"), p=pr))
        elif x < .45:
            h.append(dict(op="wstate", s=s, a="a", p=pr))
        elif x < .6:
            h.append(dict(op=rng.choice(["back", "sback"]), s=s, a=""))
        elif x < .75:
            h.append(dict(op=rng.choice(["bad", "bad", "sbad"]), s=s, a=""))
        elif x < .93:
            h.append(dict(op="cast", s=s, a="", p=rng.choice([32, 64])))
        else:
            h.append(dict(op="feed", s=s, a=""))
    return h


def c22(ck):
    rng = ck.rng
    kinds = list(zoo.GENS)
    tot = 0
    for x64 in (False, True):
        X = "TRUE" if x64 else "FALSE"
        lib.model_check("MCValues", CFG.format(d=ck.pick(4, 5), x=X) + INV, ck.stats)
        beh, total = lib.behaviours("MCValues", CFG.format(d=4, x=X) + "INVARIANT Dump\n", ck.stats, heap="10g")
        tot += total
        scns = [finish(rng, b, x64) for b in rng.sample(beh, min(len(beh), ck.pick(35, 1200)))]
        for i in range(ck.pick(50, 1800)):
            scns.append(finish(rng, rand_hist(rng, rng.randrange(4, 9), x64), x64, kind=kinds[i % len(kinds)] if rng.random() < .7 else None))
        ck.run_and_judge("drv_vals", "ValuesTrace", scns, extra_env={"JAX_ENABLE_X64": "1"} if x64 else None)
    ck.stats.extra["spec_behaviours_enumerated"] = tot
