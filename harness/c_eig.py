"""C12: selection of eigenpairs."""
import lib, zoo

CFG = "INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nCONSTANTS MaxN={n} MaxV={v}\n" + "".join(
    f"INVARIANT {i}\n" for i in ["InRange", "Once", "All", "Ends", "Shares", "Mirror", "Pos", "Tight"])
CASE = [str.upper, str.lower, str.capitalize, lambda s: s[0].lower() + s[1]]


def spectrum(rng, n):
    x = rng.random()
    if x < .15:                       # degenerate, or opposite values
        b = [rng.randrange(-4, 5) for _ in range(max(1, n // 2))]
        return [rng.choice(b) * rng.choice([1, 1, -1]) for _ in range(n)]
    if x < .3:
        return rng.sample(range(1, 20), n)
    if x < .45:
        return rng.sample(range(-19, 0), n)
    m = rng.sample(range(0, 20), n)
    return [v * rng.choice([1, -1]) for v in m]


def tree(rng, n):
    x = rng.random()
    mk = lambda: zoo.leaf(*[max(1, n + rng.choice([0, 0, 0, 1, -1]))] * 2)
    if x < .5:
        return zoo.leaf(n, n)
    if x < .75:
        return {"d": [[k, mk()] for k in sorted(rng.sample(["a", "b", "eigenvalues", "c"], rng.choice([1, 2, 3])))]}
    if x < .85:
        return {"l": [mk(), {"d": [["x", mk()]]}]}
    return {"u": [mk() for _ in range(rng.choice([1, 2]))]}


def case(rng, n, k, end, by, kind):
    s = dict(end=end, by=by, k=k, kind=kind, which=rng.choice(CASE)(end + by), illegal=False, affine=False,
             cplx=rng.random() < .4, scale=rng.choice([0, 0, 0, 3, -4, 8]), seed=rng.randrange(10 ** 6), spec=[], nested=rng.random() < .3)
    m = rng.randrange(1, 4)
    if kind in ("pmm", "chain"):
        p = rng.randrange(1, 4)
        s["affine"] = True
        s["bias"] = rng.random() < .6
        s["diag"] = [[rng.randrange(-4, 5) for _ in range(n)] for _ in range(p + s["bias"])]
        s["feat"] = [[rng.randrange(-3, 4) for _ in range(p)] for _ in range(m)]
        s["scale"] = 0
    elif kind == "util":
        s["t"] = zoo.leaf(n, n); m = 1
    else:
        s["t"] = tree(rng, n)
    if not s["affine"]:
        s["spec"] = [[spectrum(rng, x["s"][0]) for _ in range(m)] for _, x in zoo.leaves(s["t"])]
    return s


def c12(ck):
    rng = ck.rng
    lib.model_check("MCEigen", CFG.format(n=ck.pick(4, 5), v=2), ck.stats)
    cells = [(n, k, e, b, kind) for n in range(1, ck.pick(6, 9)) for k in range(0, n + 1) for e in "SLEI" for b in "AM"
             for kind in ("values", "vectors", "system", "util", "pmm", "chain") if k or kind != "pmm"]
    ck.stats.extra["cells_size_count_rule_module"] = len(cells)
    scns = [case(rng, *c) for c in cells for _ in range(ck.pick(1, 4))]
    for _ in range(ck.pick(150, 1500)):
        n = rng.randrange(1, 8)
        scns.append(case(rng, n, rng.randrange(1, n + 3), rng.choice("SLEI"), rng.choice("AM"),
                         rng.choice(["values", "vectors", "system", "pmm", "chain"])))
    for w in ["SX", "XA", "", "A", "S", "ASM", "LAA", "S A"]:
        for kind in ("values", "vectors", "system"):
            s = case(rng, 3, 2, "S", "A", kind); s["which"] = w; s["illegal"] = True; scns.append(s)
    for k in (-1, -2):
        for kind in ("values", "vectors", "system"):
            s = case(rng, 3, 2, "S", "A", kind); s["k"] = k; s["illegal"] = True; scns.append(s)
    rng.shuffle(scns)
    groups = [dict(cases=scns[i:i + 12]) for i in range(0, len(scns), 12)]
    res = lib.run_scenarios("drv_eig", groups, ck.scratch)
    flat, tr = [], []
    for g, r in zip(groups, res):
        if "crash" in r:
            ck.violation("the implementation did not return: " + r["crash"], {"driver": "drv_eig", "scenario": g, "result": r}); continue
        for s, t in zip(g["cases"], r["traces"]):
            flat.append(s); tr.append(t)
    for s, t, v in zip(flat, tr, lib.judge("EigenTrace", tr, ck.stats)):
        ck.stats.traces += 1
        if v[0] == "REJECT":
            ck.violation(v[2], {"driver": "drv_eig", "spec": "EigenTrace", "scenario": {"cases": [s]}, "trace": t, "reason": v[2]})
        elif len(ck.stats.samples) < 3:
            ck.stats.samples.append({"scenario": s, "trace": t})
