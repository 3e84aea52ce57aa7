"""C21: losses."""
import lib, zoo
from c_batch import gen_type
from c_grad import width

CFG = "INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nCONSTANT D = {%s}\nINVARIANT Positive\nINVARIANT Alike\nINVARIANT Between\nINVARIANT Whole\nINVARIANT Convex\n"
SUP = ["mse", "mae", "pseudo_huber", "mse_unc", "mae_unc", "mre", "mre_unc", "mrd", "mrd_unc"]
UNS = ["mse_unsupervised", "mae_unsupervised", "mre_unsupervised"]
CPLX = ["mse", "mae", "pseudo_huber", "mse_unc", "mae_unc"]
Q = 4096


def small_type(rng, scalar_ok=False):
    want = rng.random() < .6
    while True:
        t = gen_type(rng, 1)
        if want and len(zoo.leaves(t)) < 2:
            continue
        ls = [x["s"] for _, x in zoo.leaves(t)]
        if width(t) <= 4 and all(s != [] for s in ls):
            return t


def scenario(rng, name=None, cplx=None):
    uns = name in UNS
    cplx = name in CPLX and rng.random() < .2 if cplx is None else cplx
    tin, tout = small_type(rng), small_type(rng)
    if uns:
        tout = tin
    E = width(tout)
    n, nv = rng.choice([2, 3, 4, 5, 6]), rng.choice([0, 0, 2, 3, 4, 5, 6])
    N = n + nv
    unc = name.endswith("_unc")
    pool = {True: [x for x in SUP if x.endswith("_unc")], False: [x for x in SUP if not x.endswith("_unc")]}[unc] if not uns else UNS
    if cplx:
        pool = [x for x in pool if x in CPLX]
    vname = name if rng.random() < .6 else rng.choice(pool)
    rel = name.startswith("mr") or vname.startswith("mr")
    P, Y, U = [], [], []
    for i in range(1, N + 1):
        ps, ys, us = [], [], []
        for e in range(E):
            y = i if uns and e == 0 else rng.choice([v for v in range(-4, 5) if v or not rel])
            d = rng.choice([v for v in range(-5, 6)])
            if rng.random() < .12:
                d = 0
            p = y + d
            if "mrd" in (name[:3], vname[:3]) and y + p == 0:
                p += 1
            c = [rng.choice([-2, -1, 0, 1, 2]) for _ in range(2)] if cplx else [0, 0]
            ps.append([p, c[0]]); ys.append([y, c[1]]); us.append(rng.choice([1, 1, 2, 3]))
        P.append(ps); Y.append(ys); U.append(us)
    h = rng.choice([2, 2, 1, 3, 4])
    vb = rng.choice([0, 0, 1, 2, 3, 4, 7])
    b = rng.choice([n, n, n, 2, 3, max(1, n - 1)])
    tr = dict(P=P[:n], Y=Y[:n], U=U[:n], loss=name, h=h, b=b)
    lo = 0 if nv == 0 else n
    va = dict(P=P[lo:lo + (nv or n)], Y=Y[lo:lo + (nv or n)], U=U[lo:lo + (nv or n)], loss=vname, h=h, v=vb)
    return dict(w=width(tin), tin=tin, tout=tout, n=n, nv=nv, uns=uns, unc=unc, cplx=cplx, train=tr, val=va, P=P, Y=Y, U=U, seed=rng.randrange(1000),
                custom=rng.choice(["", "", "t", "v", "tv"]), same=vname == name and rng.random() < .5, unroll=rng.random() < .2)


def c21(ck):
    rng = ck.rng
    lib.model_check("MCLosses", CFG % ck.pick("1, 3", "0, 1, 3"), ck.stats)
    scns = []
    for _ in range(ck.pick(6, 150)):
        for nm in SUP + UNS:
            scns.append(scenario(rng, nm))
    for _ in range(ck.pick(1, 40)):
        for nm in CPLX:
            scns.append(scenario(rng, nm, True))
    ans = lib.oracle("LossesOracle", [dict(s["val"]) for s in scns], ck.stats)
    for s, a in zip(scns, ans):
        s["targets"] = [a["lo"] - max(6, a["lo"] // 200), a["hi"] + max(6, a["hi"] // 200)]
        for t in (s["train"], s["val"]):
            ck.stats.count("loss_" + t["loss"])
    ck.run_and_judge("drv_loss", "LossesTrace", scns)
