"""Runs histories of real scalers (C13)."""
import os, pathlib, tempfile, traceback
import jax, jax.numpy as jnp, numpy as onp
import parametricmatrixmodels as pmm
from drv_conf import tree_of

P = pmm.preprocessing
UNIT = 65536


def option(t, per_leaf):
    """a tree like t with one entry per leaf"""
    it = iter(per_leaf)
    return tree_of(t, lambda s: next(it))


def build(d, t):
    if d is None:
        return None
    if "kids" in d:
        if d["kind"] == "d":
            return {k: build(x, dict(t["d"])[k]) for k, x in d["kids"]}
        ts = t.get("l", t.get("u"))
        kids = [build(x, y) for (_, x), y in zip(d["kids"], ts)]
        return kids if d["kind"] == "l" else tuple(kids)
    k = d["cls"]
    if k == "Mixed":
        return P.MixedScaler(build(d["parts"], t)) if d["parts"] is not None else P.MixedScaler()
    if k == "Standard":
        return P.StandardScaler()
    if k == "OneHot":
        return P.OneHot()
    q = 1 if k == "MinMax" else 100
    num = lambda v: v if v is None else int(v) if d["ints"] and k == "MinMax" else v / q
    f = d["form"]
    kw = {}
    if k == "Robust":
        for key, a in (("with_centering", "c"), ("with_scaling", "s")):
            if d[a] is not True:
                kw[key] = d[a] if isinstance(d[a], bool) else option(t, d[a])
    name = "feature_range" if k == "MinMax" else "quantile_range"
    one = [num(v) for v in d["one"]]
    if f == "tuple":
        kw[name] = tuple(one)
    elif f == "list":
        kw[name] = one
    elif f == "jarr":
        kw[name] = jnp.array(one)
    elif f == "half":
        kw[name] = (num(d["rg"][0][0][0]), option(t, [num(r[0][1]) for r in d["rg"]]))
    elif f in ("tree", "treenone"):
        kw[name] = tuple(option(t, [num(r[0][i]) for r in d["rg"]]) for i in (0, 1))
    elif f == "arr":
        it0, it1 = iter(d["rg"]), iter(d["rg"])
        mk = lambda it, i: tree_of(t, lambda s: jnp.array([p[i] / q for p in next(it)], "f4").reshape(s))
        kw[name] = (mk(it0, 0), mk(it1, 1))
    return (P.MinMaxScaler if k == "MinMax" else P.RobustScaler)(**kw)


def hand_over(m, how):
    C = type(m)
    if how == "dict":
        return C.deserialize(m.serialize())
    d = tempfile.mkdtemp()
    fn = os.path.join(d, "a.scaler")
    try:
        if how == "file":
            m.save(fn + ".npz"); return C.load(fn + ".npz")
        if how == "nosuffix":
            m.save(fn); return C.from_file(fn)
        if how == "zip":
            m.save_compressed(fn + ".npz"); return C.load(fn + ".npz")
        if how == "path":
            m.save(pathlib.Path(fn)); return C.load(pathlib.Path(fn))
        if how == "pathzip":
            m.save_compressed(pathlib.Path(fn)); return C.load(pathlib.Path(fn))
        if how == "io":
            with open(fn, "wb") as f:
                m.save(f)
            with open(fn, "rb") as f:
                return C.load(f)
        if how == "twice":
            m.save(fn); q = C.load(fn); q.save_compressed(fn); return C.load(fn)
    finally:
        for f in os.listdir(d):
            os.unlink(os.path.join(d, f))
        os.rmdir(d)


def units(tree, one=1):
    out = []
    for x in jax.tree.leaves(tree):
        v = onp.asarray(x, "f8").reshape(x.shape[0], -1) * UNIT * one
        v = onp.where(onp.isfinite(v), v, 2.0 ** 30).clip(-2 ** 30, 2 ** 30)
        out.append(onp.rint(v).astype(int).tolist())
    return out


def run(scn):
    data = {}
    for a, t in scn["types"].items():
        it = iter(scn["data"][a])

        def leaf(s):
            rows = next(it)
            a = onp.array(rows).reshape((len(rows),) + s).astype(scn["dtype"])
            return jnp.asarray(a if scn["one"] == 1 else a / onp.float32(scn["one"]))
        data[a] = tree_of(t, leaf)
    slots, ev = {}, []
    for h in scn["hist"]:
        op, s = h["op"], h["s"]
        r = dict(e="op", op=op, s=s, a=h.get("a", ""), ok=True, msg="")
        try:
            if op == "new":
                slots[s] = build(scn["sc"], scn["types"]["1"])
            elif op == "fit":
                X = data[h["a"]]
                args = (X, X) if h["y"] else (X,)
                if h["how"] == "fit":
                    if slots[s].fit(*args) is not slots[s]:
                        raise RuntimeError("fit does not return the scaler")
                else:
                    slots[s].fit_transform(*args)
            elif op == "pass":
                r["t"] = h["t"]
                slots[h["t"]] = hand_over(slots[s], h["how"])
                if slots[h["t"]] is slots[s]:
                    raise RuntimeError("not a new object")
            elif op == "use":
                use(scn, h, slots[s], data[h["a"]], ev)
                continue
        except Exception as ex:
            r["ok"] = False
            r["msg"] = f"{h.get('how', '')} {type(ex).__name__}: {str(ex)[:300]}"
            r["tb"] = traceback.format_exc()[-1500:]
        ev.append(r)
        if not r["ok"]:
            break
    return {"trace": dict(ev=ev, data=scn["data"], opts=scn["opts"], one=scn["one"])}


def use(scn, h, sc, X, ev):
    r = dict(e="use", s=h["s"], a=h["a"], refused=False, ok=True, same=False, msg="", got=[], back=[])
    ev.append(r)
    try:
        Z = sc.transform(X)
    except Exception as ex:
        r["refused"] = True; r["msg"] = f"{type(ex).__name__}: {str(ex)[:300]}"
        # the inverse has to be refused as well
        try:
            sc.inverse_transform(X)
            r["refused"] = False; r["msg"] = "transform refused, inverse_transform did not"; r["ok"] = False
        except Exception:
            pass
        return
    try:
        B = sc.inverse_transform(Z)
        ok = jax.tree.structure(Z) == jax.tree.structure(X) == jax.tree.structure(B)
        for z, x, b, o in zip(jax.tree.leaves(Z), jax.tree.leaves(X), jax.tree.leaves(B), scn["opts"][h["a"]]):
            ok = ok and b.shape == x.shape and (z.shape == x.shape if o[0]["k"] != "hot" else z.ndim == 2)
        r["ok"] = bool(ok)
        if not ok:
            r["msg"] = f"{jax.tree.map(lambda z: z.shape, Z)} {jax.tree.map(lambda z: z.shape, B)}"
        r["got"], r["back"] = units(Z), units(B, scn["one"])
        r["same"] = units(Z) == units(X) == units(B)
    except Exception as ex:
        r["refused"] = True; r["msg"] = f"inverse {type(ex).__name__}: {str(ex)[:300]}"
