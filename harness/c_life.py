"""C04, C05: freezing, resuming."""
import lib

CFG = ("INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nCONSTANTS Depth={d} MaxK={k}\n")
INV = ("INVARIANT CountersFollowHistory\nINVARIANT SplitLaw\nPROPERTY FrozenFixed\nPROPERTY TrainableMoves\n"
       "PROPERTY ParamlessNeverMove\n")
STRUCTS = ["list", "tuple", "dict", "lol", "nest", "deep", "nonseq", "nsgroup", "nsnest", "seqns"]


def kinds_for(rng, hasp, cx=False):
    ks = [("c" if cx and rng.random() < .5 else rng.choice("adtb")) if h else "n" for h in hasp]
    if ks[-1] == "b":
        ks[-1] = rng.choice("adt")
    return ks


def scenario(rng, hasp, branches, mode, **kw):
    cx = mode == "int" and rng.random() < 0.15
    kinds = kinds_for(rng, hasp, cx)
    if len(hasp) == 2:
        st = rng.choice(["list", "tuple", "dict", "lol", "nest", "nonseq", "nsgroup"])
    else:
        st = rng.choice(STRUCTS)
    for b in branches:
        for o in b:
            o.setdefault("how", rng.randrange(6))
    s = dict(kinds=kinds, struct=st, v0=[rng.randrange(5) if k != "n" else 0 for k in kinds], s0=rng.randrange(3),
             f0=[rng.random() < 0.8 for _ in kinds], compile=rng.choice(["first", "lazy"]), branches=branches,
             mode=mode, sched=0 if "c" in kinds else rng.choice([1, 1, 0]), mseed=rng.randrange(1, 10 ** 6),
             bseed=rng.randrange(1, 10 ** 6))
    if "c" in kinds:
        kw.pop("sched", None)
    s.update(kw)
    return s


def rand_ops(rng, k, n, flags=True):
    ops = []
    for _ in range(n):
        x = rng.random()
        if flags and x < 0.4:
            ls = rng.choice([[j] for j in range(1, k + 1)] + [list(range(1, k + 1)), [k - 1, k], list(range(2, k + 1)),
                                                              list(range(1, k))])
            ops.append(dict(op="flag", ls=ls, v=rng.random() < 0.5))
        elif x < 0.8:
            b = rng.choice([0, 1, 1, 2, 3])
            ops.append(dict(op="train", resume=rng.random() < 0.5, nb=rng.choice([1, 2, 4]), best=b,
                            E=b + rng.choice([0, 0, 1, 2])))
        elif x < 0.88:
            ops.append(dict(op="set", v=[rng.randrange(0, 30) for _ in range(k)]))
        elif x < 0.95:
            ops.append(dict(op="reload"))
        else:
            ops.append(dict(op="clone"))
    return ops


def c04(ck):
    rng = ck.rng
    lib.model_check("MCLifecycle", CFG.format(d=ck.pick(3, 4), k=ck.pick(3, 2)) + INV, ck.stats)
    beh, total = lib.behaviours("MCLifecycle", CFG.format(d=3, k=3) + "INVARIANT Dump\n", ck.stats)
    ck.stats.extra["spec_behaviours_enumerated"] = total
    beh = [b for b in beh if any(o["op"] == "flag" for o in b["ops"]) and any(o["op"] == "train" and o["best"] for o in b["ops"])]
    beh = rng.sample(beh, min(len(beh), ck.pick(110, 2500)))
    scns = []
    for b in beh:
        # every behaviour ends with one more training run that moves whatever may move
        ops = b["ops"] + [dict(op="train", resume=False, nb=1, best=1, E=1)]
        scns.append(scenario(rng, b["hasp"], [ops], "int"))
    for _ in range(ck.pick(60, 900)):
        k = rng.choice([2, 3, 3, 4])
        hasp = [rng.random() < 0.85 for _ in range(k)]
        if not any(hasp):
            hasp[0] = True
        scns.append(scenario(rng, hasp, [rand_ops(rng, k, rng.randrange(3, 8))], "int"))
    ck.run_and_judge("drv_life", "LifecycleTrace", scns)


def variants(rng, base):
    """Histories related to `base`: split / merged runs, reloads and clones in between."""
    out = []
    for o in base:
        o = dict(o)
        if o["op"] == "train" and o["best"] == o["E"] and o["E"] >= 2 and rng.random() < 0.6:
            a = rng.randrange(0, o["E"] + 1)
            out.append(dict(o, best=a, E=a))
            if rng.random() < 0.4:
                out.append(dict(op="reload"))
            out.append(dict(o, best=o["E"] - a, E=o["E"] - a, resume=True, bs=1))
        elif o["op"] == "train" and not o["resume"] and rng.random() < 0.4:
            out.append(dict(op="clone")); out.append(dict(o))
        else:
            out.append(o)
        if rng.random() < 0.25:
            out.append(dict(op="reload"))
    return out


def c05(ck):
    rng = ck.rng
    lib.model_check("MCLifecycle", CFG.format(d=ck.pick(3, 4), k=ck.pick(3, 2)) + INV, ck.stats)
    beh, total = lib.behaviours("MCLifecycle", CFG.format(d=3, k=3) + "INVARIANT Dump\n", ck.stats)
    ck.stats.extra["spec_behaviours_enumerated"] = total
    beh = [b for b in beh if sum(o["op"] == "train" for o in b["ops"]) >= 2]
    beh = rng.sample(beh, min(len(beh), ck.pick(70, 2000)))
    scns = []
    for b in beh:
        ops = b["ops"] + [dict(op="train", resume=rng.random() < .6, nb=1, best=1, E=1)]
        scns.append(scenario(rng, b["hasp"], [ops], "int"))
    for _ in range(ck.pick(40, 600)):     # modules frozen in some of the runs that later runs resume
        k = rng.choice([2, 3])
        ops = []
        for i in range(rng.randrange(2, 5)):
            for j in range(1, k + 1):
                if rng.random() < 0.4:
                    ops.append(dict(op="flag", ls=[j], v=rng.random() < 0.6))
            e = rng.choice([1, 1, 2, 3])
            ops.append(dict(op="train", resume=i > 0 and rng.random() < 0.8, nb=rng.choice([1, 2]), best=e, E=e))
            if rng.random() < 0.2:
                ops.append(dict(op="reload"))
        scns.append(scenario(rng, [True] * k, [ops], "int", sched=1))
    for _ in range(ck.pick(44, 700)):     # bit-for-bit equalities with the real Adam
        k = rng.choice([2, 3])
        hasp = [rng.random() < 0.9 for _ in range(k)]
        hasp[rng.randrange(k)] = True
        base = []
        for i in range(rng.randrange(2, 4)):
            if rng.random() < 0.25:
                base.append(dict(op="flag", ls=[rng.randrange(1, k + 1)], v=rng.random() < 0.5))
            if rng.random() < 0.15:
                base.append(dict(op="set", v=[rng.randrange(0, 9) for _ in range(k)]))
            e = rng.choice([1, 2, 2, 3])
            base.append(dict(op="train", resume=i > 0 and rng.random() < 0.6, nb=rng.choice([1, 2, 4]), best=e, E=e))
        scns.append(scenario(rng, hasp, [base, variants(rng, base)], "cls"))
    # resuming without a stored optimizer is refused and changes nothing
    for _ in range(ck.pick(6, 30)):
        k = rng.choice([2, 3])
        pre = rng.choice([[], [dict(op="reload")], [dict(op="set", v=[3] * k)],
                          [dict(op="train", resume=False, nb=1, best=1, E=1), dict(op="clone")]])
        ops = pre + [dict(op="train", resume=True, nb=1, best=1, E=1), dict(op="train", resume=False, nb=2, best=1, E=2),
                     dict(op="train", resume=True, nb=1, best=2, E=2)]
        scns.append(scenario(rng, [True] * k, [ops], "int"))
    ck.run_and_judge("drv_life", "LifecycleTrace", scns)
