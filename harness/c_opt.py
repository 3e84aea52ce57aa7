"""C23: the update rule."""
import lib

CFG = "INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nCONSTANTS Depth = %d Top = %d\n" + "".join(
    f"INVARIANT {i}\n" for i in ["Odd", "Turn", "Still", "Steady", "Downhill", "Counts"])


def scenario(rng, cplx):
    mods = []
    for _ in range(rng.choice([1, 2, 2, 3])):
        arrs = []
        for _ in range(rng.choice([1, 1, 2])):
            s = rng.choice([[1], [2], [3], [2, 2], [1, 2], []])
            n = 1
            for d in s:
                n *= d
            c = cplx and rng.random() < .6
            arrs.append(dict(s=s, c=c, x=[[rng.randrange(-4, 5), rng.randrange(-4, 5)] if c else rng.randrange(-4, 5) for _ in range(n)]))
        mods.append(arrs)
    if cplx and not any(a["c"] for m in mods for a in m):
        a = mods[0][0]; a["c"] = True; a["x"] = [[z, 1] for z in a["x"]]
    runs, total = [], 0
    for i in range(rng.choice([1, 1, 2, 3])):
        E = rng.choice([1, 2, 3, 4])
        total += E
        eps = rng.choice([0, 4, 8, 16, 32])
        G = []
        zero = set()
        for _ in range(E):
            ep = []
            for j, a in enumerate([a for m in mods for a in m]):
                row = []
                for q in range(len(a["x"])):
                    g = [rng.choice([-7, -5, -3, -2, -1, 1, 2, 3, 4, 6]) for _ in range(2)]
                    if eps and (j + q) % 5 == 4:
                        g = [0, 0]
                    if not a["c"]:
                        g[1] = 0
                    elif rng.random() < .2:
                        g[rng.randrange(2)] = 0
                        if g == [0, 0]:
                            g = [2, 0]
                    row.append(g)
                ep.append(row)
            G.append(ep)
        on = [rng.random() < .75 for _ in mods]
        if not any(on):
            on[rng.randrange(len(on))] = True
        sched = rng.random() < .5
        lr = [rng.choice([1, 4, 8, 16, 24, 32]) for _ in range(14)]
        if not sched:
            lr = [lr[0]] * 14
        n = rng.choice([1, 2, 3, 4, 5])
        nb = rng.choice([1, 1, 2, 3])
        bs = max(1, -(-n // nb)) if rng.random() < .9 else n + 2
        r = dict(resume=i > 0 and rng.random() < .65, G=G, mods_on=on, o=dict(b1=rng.choice([0, 1, 2, 3, 3]), b2=rng.choice([0, 1, 2, 3, 3]), eps=eps, clip=rng.choice([2, 3, 4, 5])),
                 lr=lr, sched=sched, n=n, bs=bs, add=[rng.choice([0, 0, 0, 1, -2]) for _ in range(E)],
                 fwd=not cplx and rng.random() < .2, unroll=rng.random() < .15, verbose=rng.random() < .15, reload=i > 0 and rng.random() < .15, set=None)
        if i and rng.random() < .25:
            r["set"] = [[[rng.randrange(-4, 5), rng.randrange(-4, 5) if a["c"] else 0] for _ in a["x"]] for m in mods for a in m]
        runs.append(r)
    return dict(mods=mods, kind=rng.choice(["list", "tuple", "dict", "nested", "nonseq"]), runs=runs)


def c23(ck):
    rng = ck.rng
    lib.model_check("MCOptimizer", CFG % ck.pick((2, 1), (3, 2)), ck.stats)
    scns = [scenario(rng, i % 2 == 1) for i in range(ck.pick(130, 2500))]
    for s in scns:
        ck.stats.count("runs", len(s["runs"]))
        ck.stats.count("complex", any(a["c"] for m in s["mods"] for a in m))
        ck.stats.count("resumed", sum(r["resume"] for r in s["runs"]))
    ck.run_and_judge("drv_opt", "OptimizerTrace", scns)
