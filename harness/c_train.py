"""C01, C02, C03: the training loop."""
import lib

INV = ("INVARIANT BestIsEarliestMin\nINVARIANT StopsExactly\nINVARIANT EpochUsesEverySampleOnce\n"
       "PROPERTY ValPassPure\n")


def mc_cfg(mode, n, e, loss, p, extra=INV):
    return (f'INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nCONSTANTS MaxN={n} MaxE={e} MaxLoss={loss} '
            f'MaxP={p} Mode="{mode}"\n' + extra)


def pow2(x):
    return x & (x - 1) == 0


def val_batches(cfg):
    vbs = cfg["nv"] if cfg["vbs"] <= 0 else min(cfg["vbs"], cfg["nv"])
    return -(-cfg["nv"] // vbs)


def fix(cfg):
    """Exact comparisons need losses that survive averaging over validation batches."""
    if not pow2(val_batches(cfg)):
        if cfg["hasD"] and cfg["D"] % 2 == 0:
            cfg["D"] += 1
        if cfg["hasT"] and cfg["T"] % 2 == 0:
            cfg["T"] += 1
    return cfg


def rand_cfg(rng, batches=False, hascb=True, emax=9, small=False):
    n = rng.choice([1, 2, 3, 4, 5, 7, 9])
    sep = rng.random() < 0.7
    nv = rng.choice([1, 2, 3, 4, 5, 7]) if sep else n
    e = rng.choice([0, 1, 2, 3, 4, 5, 6, emax] if not small else [1, 2, 3])
    style = rng.choice(["rand", "down", "vee", "plateau", "late", "neg"])
    ln = e + 2
    if style == "rand":
        ls = [rng.randrange(0, 5) for _ in range(ln)]
    elif style == "down":
        ls = [20 - 2 * i for i in range(ln)]
    elif style == "vee":
        m = rng.randrange(0, ln); ls = [abs(i - m) * 2 + 1 for i in range(ln)]
    elif style == "plateau":
        ls, v = [], 9
        for i in range(ln):
            v -= rng.choice([0, 0, 1, 2]); ls.append(v)
    elif style == "late":
        ls = [3 + (i % 2) for i in range(ln)]; ls[rng.randrange(0, ln)] = 1
    else:
        ls = [rng.randrange(-6, 3) for _ in range(ln)]
    hasd = rng.random() < 0.7
    hast = rng.random() < 0.4
    cb = [rng.choice([0, 0, 3, 50]) for _ in range(e + 1)] if hascb and rng.random() < 0.5 else []
    return fix(dict(n=n, bs=rng.choice([1, 2, 3, 4, n, n + 3, max(1, n - 1)]), nv=nv,
                    vbs=rng.choice([0, 1, 2, 3, nv, nv + 2]),
                    E=e, P=rng.choice([1, 2, 3, 100]), D=rng.choice([-2, -1, 0, 1, 2, 3, 4]) if hasd else 0,
                    hasD=hasd, T=2 * rng.randrange(-1, 4) + rng.randrange(2) if hast else 0, hasT=hast,
                    cb=cb, loss=ls, sched=rng.randrange(2), clk0=rng.randrange(0, 5),
                    stp0=rng.randrange(0, 3), cnt0=0, verbose=False, fails="", batches=batches, hascb=hascb,
                    sepval=sep, start=0, resume=False, **{"from": "fresh"}))


def from_behaviour(b, rng, batches=False, hascb=True):
    cfg = dict(b["cfg"])
    cfg["loss"] = list(cfg["loss"]) + [9] * 3
    cfg.update(n=rng.choice([1, 2, 3, 5]), bs=rng.choice([1, 2, 3]), vbs=0,
               batches=batches, hascb=hascb, sepval=rng.random() < .5, start=0, resume=False,
               cnt0=0)
    cfg["nv"] = rng.choice([1, 2, 4]) if cfg["sepval"] else cfg["n"]
    cfg["from"] = "fresh"; cfg["fails"] = ""
    return fix(cfg)


def wrap(rng, runs, **kw):
    yk = rng.choice(["bare", "bare", "dict", "tuple", "mat"])
    s = dict(runs=runs, xk=rng.choice(["bare", "bare", "dict", "tuple"]), yk=yk, unc=rng.random() < 0.4,
             seed=rng.randrange(1, 10 ** 6), mseed=rng.randrange(1, 10 ** 6),
             model=rng.choice(["seq", "seq", "tuple", "nested", "nonseq"]),
             verbose=rng.random() < 0.2)
    if rng.random() < 0.15:
        s["yk"] = "none"; s["unc"] = False
    if rng.random() < 0.15:
        s["unroll"] = 2
    s.update(kw)
    return s


def behaviours(ck, e, loss, p, limit):
    bs, total = lib.behaviours("MCTraining", mc_cfg("epoch", 2, e, loss, p, "INVARIANT Dump\n"), ck.stats)
    bs = [b for b in bs if b["killat"] == -1]
    bs = ck.rng.sample(bs, min(limit, len(bs)))
    ck.stats.extra["spec_behaviours_enumerated"] = total
    return bs


def c01(ck):
    rng = ck.rng
    lib.model_check("MCTraining", mc_cfg("epoch", 2, 3, 1 + ck.thorough, 2), ck.stats)
    scns = []
    # groups of runs that share everything but the budget / the losses after some point:
    for _ in range(ck.pick(44, 400)):
        base = rand_cfg(rng, hascb=False)
        base["hascb"] = False
        runs = []
        full = dict(base); runs.append(full)
        # best epoch of the full run, as budget of the second
        for _ in range(2):
            c = dict(base)
            how = rng.choice(["budget", "loss", "stop"])
            if how == "budget":
                c["E"] = rng.randrange(0, base["E"] + 1)
            elif how == "loss":
                cut = rng.randrange(0, len(base["loss"]))
                c["loss"] = base["loss"][:cut] + [max(base["loss"]) + rng.randrange(0, 3) for _ in base["loss"][cut:]]
            else:
                c["P"] = rng.choice([1, 2]); c["hasD"] = True; c["D"] = rng.choice([1, 3])
            runs.append(c)
        scns.append(wrap(rng, runs, cls=True))
    # behaviours enumerated by TLC
    for b in behaviours(ck, 3, 2, 2, ck.pick(60, 900)):
        scns.append(wrap(rng, [from_behaviour(b, rng)]))
    # the optimizer state returned is that of the best epoch: continue from it
    for _ in range(ck.pick(24, 200)):
        a = rand_cfg(rng, hascb=False); a["sched"] = 1; a["hasD"] = False; a["D"] = 0
        b = rand_cfg(rng, hascb=False); b["sched"] = 1
        b.update(n=a["n"], bs=a["bs"], nv=a["nv"], sepval=a["sepval"], resume=True, start=1)
        b["from"] = "resume"
        fix(a); fix(b)
        scns.append(wrap(rng, [a, b]))
    ck.run_and_judge("drv_train", "TrainingTrace", scns)


def c02(ck):
    rng = ck.rng
    lib.model_check("MCTraining", mc_cfg("epoch", 2, 3, 1 + ck.thorough, 2), ck.stats)
    scns = []
    for b in behaviours(ck, 3, 2, 2, ck.pick(150, 2500)):
        scns.append(wrap(rng, [from_behaviour(b, rng)]))
    for _ in range(ck.pick(130, 1500)):
        c = rand_cfg(rng)
        if rng.random() < 0.5:
            c["P"] = rng.choice([1, 2, 3]); c["hasD"] = True
            if c["D"] < 0: c["D"] = rng.choice([0, 1, 2])
            c["E"] = max(c["E"], 5); c["loss"] = c["loss"] + [rng.randrange(0, 6) for _ in range(8)]
            fix(c)
        scns.append(wrap(rng, [c]))
    ck.run_and_judge("drv_train", "TrainingTrace", scns)


def c03(ck):
    rng = ck.rng
    lib.model_check("MCTraining", mc_cfg("batch", ck.pick(3, 4), 2, 1, 2), ck.stats)
    scns = []
    # every (n, bs) and (nv, vbs) layout of a small box at least once
    nmax = ck.pick(6, 9)
    boxes = [(n, bs) for n in range(1, nmax + 1) for bs in range(1, n + 2)]
    rng.shuffle(boxes)
    vb = [(n, bs) for n in range(1, nmax + 1) for bs in range(0, n + 2)]
    rng.shuffle(vb)
    for i in range(max(len(boxes), len(vb)) * ck.pick(3, 10)):
        c = rand_cfg(rng, batches=True, small=True)
        c["n"], c["bs"] = boxes[i % len(boxes)]
        if rng.random() < 0.75:
            c["sepval"] = True; c["nv"], c["vbs"] = vb[i % len(vb)]
        else:
            c["sepval"] = False; c["nv"] = c["n"]; c["vbs"] = rng.randrange(0, c["n"] + 2)
        c["E"] = rng.choice([1, 2, 3]); c["P"] = 100; c["hasT"] = False; c["T"] = 0
        c["loss"] = c["loss"] + [4, 4, 4]
        fix(c)
        scns.append(wrap(rng, [c]))
    ck.run_and_judge("drv_train", "TrainingTrace", scns)


def events(cfg):
    """number of observable moments of a run that uses its whole budget"""
    return val_batches(cfg) + cfg["E"] * (-(-cfg["n"] // min(cfg["bs"], cfg["n"])) + val_batches(cfg) + 1)


def moment(rng, cfg, ep):
    """a moment of epoch number ep (-1: before the first)"""
    v, t = val_batches(cfg), -(-cfg["n"] // min(cfg["bs"], cfg["n"]))
    return 1 + rng.randrange(v) if ep < 0 else v + ep * (t + v + 1) + 1 + rng.randrange(t + v + 1)


def sig_scenario(rng, hist):
    """a history of the process around training (MCSignals) made concrete"""
    runs, plans, disp, own = [], [], None, {}
    for h in hist:
        if h["op"] == "disp":
            disp = own = h["a"]
        elif h["op"] == "begin":
            c = rand_cfg(rng, batches=True, small=True)
            c["E"] = 2; c["P"] = 100; c["hasT"] = False; c["T"] = 0; c["verbose"] = h["a"]; c["loss"] = c["loss"][:1] + [rng.randrange(0, 6) for _ in range(6)]
            fix(c)
            if runs:
                # a later run sometimes goes on with the model of the one before
                how = rng.choice(["fresh", "again", "resume"]) if runs[-1]["fails"] == "" else rng.choice(["fresh", "again"])
                if how != "fresh":
                    for q in ("n", "nv", "sepval"):
                        c[q] = runs[-1][q]
                    c["from"] = how; c["resume"] = how == "resume"; c["start"] = len(runs)
                    fix(c)
            runs.append(c); plans.append(dict(disp=disp, sigs=[], pokes=[])); disp = None
            ep = -1
        elif h["op"] == "epoch":
            ep += 1
        elif h["op"] == "sig":
            if runs and inside:
                plans[-1]["sigs"].append([moment(rng, runs[-1], ep), h["a"]])
            elif runs and disp is None:
                plans[-1]["pokes"].append(h["a"])
        elif h["op"] == "end":
            if h["a"] == "error":
                how = rng.choice(["run", "run", "trace"])
                if how == "trace" and plans[-1]["sigs"]:
                    how = "run"
                runs[-1]["fails"] = how
                if how == "run":
                    plans[-1]["fail"] = max([moment(rng, runs[-1], ep)] + [n for n, _ in plans[-1]["sigs"]])
        inside = h["op"] in ("begin", "epoch") or (h["op"] == "sig" and inside)
    return wrap(rng, runs, plans=plans, verbose=False, fwd=False)


def c16(ck):
    rng = ck.rng
    lib.model_check("MCTraining", mc_cfg("epoch", 2, 3, 1 + ck.thorough, 2), ck.stats)
    cfg = "INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nCONSTANTS MaxRuns={r} MaxEpochs=2\n"
    lib.model_check("MCSignals", cfg.format(r=ck.pick(1, 2)) + "INVARIANT Restored\nPROPERTY Heard\nPROPERTY NoEpochAfter\n", ck.stats)
    one, total = lib.behaviours("MCSignals", cfg.format(r=1) + "INVARIANT Dump\n", ck.stats)
    ck.stats.extra["spec_behaviours_enumerated"] = total
    hist = rng.sample(one, min(len(one), ck.pick(60, 1200)))
    # longer histories: runs one after the other
    for _ in range(ck.pick(30, 800)):
        h = []
        for b in rng.sample(one, rng.choice([2, 3])):
            h += b
        hist.append(h)
    ck.run_and_judge("drv_train", "TrainingTrace", [sig_scenario(rng, h) for h in hist])
    # as if that had been the budget: same model, bit for bit
    scns = []
    for _ in range(ck.pick(20, 400)):
        base = rand_cfg(rng, batches=True)
        base["E"] = rng.choice([2, 3, 4, 5]); base["loss"] = base["loss"] + [9] * 8; base["cb"] = []
        fix(base)
        runs, plans = [], []
        for v in range(3):
            c = dict(base); plan = dict(disp={"int": "own", "term": "own"}, sigs=[], pokes=[])
            if v == 1:
                c["E"] = rng.randrange(0, base["E"] + 1)
            if v == 2:
                c["verbose"] = True
                plan["sigs"] = [[rng.randrange(1, events(c) + 1), rng.choice(["int", "term"])]]
            runs.append(c); plans.append(plan)
        rng.shuffle(order := [0, 1, 2])
        scns.append(wrap(rng, [runs[i] for i in order], plans=[plans[i] for i in order], verbose=False, fwd=False, cls=True))
    ck.run_and_judge("drv_train", "TrainingTrace", scns)
