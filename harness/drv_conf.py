"""Runs histories of real conformalized models (C14, C15); records intervals as ranks and counts."""
import hashlib, os, pathlib, tempfile, traceback, warnings
import jax, jax.numpy as jnp, numpy as onp
import parametricmatrixmodels as pmm
import probes
import zoo_build as zb
from drv_obj import canon

CM = pmm.conformal.ConformalizedModel
M = pmm.modules
warnings.simplefilter("ignore")


def tree_of(t, f):
    """t: a type of zoo.py"""
    if "s" in t:
        return f(tuple(t["s"]))
    if "d" in t:
        return {k: tree_of(x, f) for k, x in t["d"]}
    return tuple(tree_of(x, f) for x in t["u"]) if "u" in t else [tree_of(x, f) for x in t["l"]]


def base(scn):
    if scn["exact"]:
        m = pmm.SequentialModel([probes.Gain()])
    else:
        m = zb.build(scn["model"])
    m.compile(7, zb.shapes(scn["tin"]))
    return m


def fill(t, n, seed, cats):
    """n samples; the leaves named in cats hold a few integers"""
    r = onp.random.RandomState(seed)

    def go(t, path):
        if "s" in t:
            if path and path[0] in cats:
                return jnp.asarray(r.randint(0, 3, [n] + t["s"]).astype("f4"))
            return jnp.asarray((r.randn(n, *t["s"])).astype("f4"))
        if "d" in t:
            return {k: go(x, path + (k,)) for k, x in t["d"]}
        kids = [go(x, path + (str(i),)) for i, x in enumerate(t.get("l", t.get("u")))]
        return tuple(kids) if "u" in t else kids
    return go(t, ())


def bools(t, yes):
    def go(t, path):
        if "s" in t:
            return bool(path and path[0] in yes)
        if "d" in t:
            return {k: go(x, path + (k,)) for k, x in t["d"]}
        kids = [go(x, path + (str(i),)) for i, x in enumerate(t.get("l", t.get("u")))]
        return tuple(kids) if "u" in t else kids
    return go(t, ())


class Cal:
    """one calibration data set with its options"""
    def __init__(self, scn, c):
        self.c, n = c, c["n"]
        tin = scn["tin"]
        m = base(scn)
        self.kw = {}
        if scn["exact"]:
            it = iter(zip(c["x"], c["scores"], c["sign"]))
            ys = []

            def leaf(s):
                k = int(onp.prod(s))
                xs, us = [], []
                for _ in range(k):
                    x, sc, sg = next(it)
                    x = onp.array(x, "f4")
                    s2 = x * x
                    u = s2 / onp.median(onp.abs(s2 - onp.median(s2)))
                    xs.append(x); us.append(x + onp.array(sg, "f4") * onp.array(sc, "f4") * u)
                ys.append(jnp.asarray(onp.stack(us, 1).reshape((n,) + s)))
                return jnp.asarray(onp.stack(xs, 1).reshape((n,) + s))
            self.X = tree_of(tin, leaf)
            self.Y = jax.tree.unflatten(jax.tree.structure(self.X), ys)
        else:
            self.X = fill(tin, n, c["seed"], scn["cats"])
            y = m(self.X, dtype=jnp.float32)
            r = onp.random.RandomState(c["seed"] + 1)
            self.Y = jax.tree.map(lambda p: p + jnp.asarray(r.standard_cauchy(p.shape).clip(-9, 9).astype("f4")), y)
            o = c["opts"]
            if o.get("train"):
                self.kw["X_train"] = fill(tin, o["train"], c["seed"] + 2, scn["cats"])
            if o.get("xunc"):
                self.kw["X_cal_unc"] = jax.tree.map(jnp.abs, fill(tin, n, c["seed"] + 3, []))
            if o.get("yunc"):
                self.kw["Y_cal_unc"] = jax.tree.map(lambda p: jnp.asarray((r.rand(*p.shape) + .1).astype("f4")), y)
            for k in ("parameter_sensitivity", "input_sensitivity", "distance_sensitivity"):
                if k in o:
                    self.kw[k] = o[k]
            if scn["cats"]:
                self.kw["continuous_features"] = jax.tree.map(lambda b: not b, bools(tin, scn["cats"]))
            if o.get("bias") == "all":
                self.kw["stratified_bias_corrections"] = True
            elif o.get("bias") == "strata" and scn["cats"]:
                self.kw["stratified_bias_corrections"] = bools(tin, scn["cats"])
        self.common = dict(skip_sanity_checks=True, dtype=jnp.float32)
        if scn.get("mbs"):
            self.common["max_batch_size"] = scn["mbs"]


def hand_over(m, how):
    if how == "dict":
        return CM.deserialize(m.serialize())
    d = tempfile.mkdtemp()
    fn = os.path.join(d, "a.model")
    try:
        if how == "file":
            m.save(fn + ".npz"); return CM.from_file(fn + ".npz")
        if how == "nosuffix":
            m.save(fn); return CM.from_file(fn)
        if how == "zip":
            m.save_compressed(fn + ".npz"); return CM.from_file(fn + ".npz")
        if how == "path":
            m.save_compressed(pathlib.Path(fn)); return CM.from_file(pathlib.Path(fn))
        if how == "io":
            with open(fn, "wb") as f:
                m.save(f)
            with open(fn, "rb") as f:
                return CM.from_file(f)
        if how == "twice":
            m.save(fn); q = CM.from_file(fn); q.save_compressed(fn); return CM.from_file(fn)
    finally:
        for f in os.listdir(d):
            os.unlink(os.path.join(d, f))
        os.rmdir(d)


def flat(tree, pts=None):
    return onp.concatenate([onp.asarray(x[:pts], "f8").ravel() for x in jax.tree.leaves(tree)])


def comps(tree):
    """(samples, components)"""
    return onp.concatenate([onp.asarray(x, "f8").reshape(x.shape[0], -1) for x in jax.tree.leaves(tree)], axis=1)


def run(scn):
    cals = {k: Cal(scn, c) for k, c in scn["cals"].items()}
    new_X = fill(scn["tin"], 4, 999, scn.get("cats", []))
    slots, cal, ev, classes = {}, {}, [], {}
    for h in scn["hist"]:
        op, s = h["op"], h["s"]
        if op == "ask":
            ask(scn, h, slots[s], cals.get(cal.get(s)), cal.get(s), new_X, ev, classes)
            if ev[-1]["refused"] and cal.get(s):
                break
            continue
        r = dict(e="op", op=op, s=s, a=h.get("a", ""), ok=True, msg="")
        extra = []
        try:
            if op == "new":
                slots[s] = CM(base(scn), alpha=scn["alpha"] / 1000, nn_dist_quantile=scn["nnq"], name=scn.get("name"))
            elif op == "cal":
                c = cals[h["a"]]
                slots[s].calibrate(c.X, c.Y, **c.kw, **c.common); cal[s] = h["a"]
            elif op == "badcal":
                r["op"] = "refused-cal"
                c = cals[h["a"]]
                Y = jax.tree.map(lambda y: jnp.concatenate([y, y], -1), c.Y) if h["bad"] == "Y" else jax.tree.map(lambda y: y[:-1], c.Y)
                slots[s].calibrate(c.X, Y, **c.common)
            elif op == "pass":
                r["t"] = h["t"]
                a = slots[s]
                b = slots[h["t"]] = hand_over(a, h["how"]); cal[h["t"]] = cal.get(s)
                if b is a:
                    raise RuntimeError("not a new object")
                same = lambda what, x, y: extra.append(dict(e="must", what=what + " is not kept", ok=bool(type(x) is type(y) and x == y)))
                same("the name", a.name, b.name); same("the default level", a.default_alpha, b.default_alpha)
                same("an option", a.nn_dist_quantile, b.nn_dist_quantile)
                same("the type of the model", type(a.model), type(b.model))
                same("the parameters of the model", canon(a.model.get_params()), canon(b.model.get_params()))
                same("the key of the model", canon(a.model.get_rng()), canon(b.model.get_rng()))
                same("the scores", canon(a.scores), canon(b.scores))
        except Exception as ex:
            r["ok"] = False
            r["msg"] = f"{h.get('how', '')} {type(ex).__name__}: {str(ex)[:300]}"
            r["tb"] = traceback.format_exc()[-1500:]
        ev.append(r); ev += extra
        if not r["ok"] and op != "badcal":
            break
    rank(ev)
    return {"trace": dict(ev=ev, cals={k: dict(n=c["n"], exact=bool(scn["exact"]), scores=c.get("scores", [])) for k, c in scn["cals"].items()})}


def ask(scn, h, m, c, name, new_X, ev, classes):
    pts = h["pts"] if c is not None else "new"
    X = c.X if pts == "cal" else new_X
    levels = h["levels"] or [scn["alpha"]]
    al = [a / 1000 for a in levels]
    kw = dict(dtype=jnp.float32)
    if h["levels"]:
        kw["alpha"] = {"one": al[0], "list": al, "tuple": tuple(al), "array": jnp.array(al)}[h["form"]] if len(al) > 1 else al[0]
    if scn.get("mbs"):
        kw["max_batch_size"] = scn["mbs"]
    if pts == "cal" and "X_cal_unc" in c.kw:
        kw["X_unc"] = c.kw["X_cal_unc"]
    r = dict(e="ask", s=h["s"], pts=pts, key=f"{pts}/{name if pts == 'cal' else ''}", refused=False, msg="", ans=[], pred=0)
    try:
        out = (m.predict if h.get("predict") else m)(X, **kw)
        pred, iv = out[0], out[1]
        if len(levels) == 1:
            iv = [iv]
        if len(iv) != len(levels):
            raise RuntimeError(f"{len(iv)} intervals for {len(levels)} levels")
        P = comps(pred)
        r["pred"] = classes.setdefault((r["key"], hashlib.sha256(canon(jax.tree.map(lambda p: jnp.round(p, 4), pred))).hexdigest()), len(classes) + 1)
        qs = [None] * len(levels)
        if scn["exact"]:
            q = m.get_qhat(kw.get("alpha"))
            qs = [q] if len(levels) == 1 else q
        for a, (lo, hi), q in zip(levels, iv, qs):
            L, H = comps(lo), comps(hi)
            A = dict(level=a, nan=bool(onp.isnan(L).any() or onp.isnan(H).any() or onp.isnan(P).any()),
                     mid=bool(onp.all(onp.abs((L + H) / 2 - P) <= 1e-5 * (1 + onp.abs(L) + onp.abs(H)))),
                     flo=L[:3].ravel().tolist(), fhi=H[:3].ravel().tolist(), nq=[])
            if pts == "cal":
                D, W = onp.abs(comps(c.Y) - P), (H - L) / 2
                A["in"] = (D <= W * (1 + 1e-4) + 1e-5).sum(0).tolist()
                A["strict"] = (D < W * (1 - 1e-4) - 1e-5).sum(0).tolist()
            if q is not None:
                n = c.c["n"]
                nq = [float(v) * n for x in jax.tree.leaves(q) for v in onp.asarray(x).ravel()]
                A["nq"] = [int(round(v)) if abs(v - round(v)) < .01 else -1 for v in nq]
            r["ans"].append(A)
    except Exception as ex:
        r["refused"] = True
        r["msg"] = f"{type(ex).__name__}: {str(ex)[:300]}"
        r["tb"] = traceback.format_exc()[-1500:]
    ev.append(r)


def rank(ev):
    """replaces the interval ends by dense ranks, position by position"""
    groups = {}
    for e in ev:
        if e["e"] == "ask":
            for A in e["ans"]:
                groups.setdefault(e["key"], []).append(A)
            e["pts"] = e["pts"]
    for As in groups.values():
        for i in range(len(As[0]["flo"])):
            vals = sorted(v for A in As for v in (A["flo"][i], A["fhi"][i]) if v == v)
            table, k, last = {}, 0, None
            for v in vals:
                if last is None or v - last > 2e-5 * max(1, abs(v)):
                    k += 1
                table[v] = k; last = v
            for A in As:
                A.setdefault("lo", []).append(table.get(A["flo"][i], 0)); A.setdefault("hi", []).append(table.get(A["fhi"][i], 0))
    for As in groups.values():
        for A in As:
            del A["flo"], A["fhi"]
