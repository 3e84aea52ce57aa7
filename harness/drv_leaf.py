"""Calls the array utilities for trees (C25)."""
import contextlib, io, warnings
import jax, jax.numpy as jnp, numpy as onp
from parametricmatrixmodels import tree_util as tu

warnings.simplefilter("ignore")


def dec(t, dt):
    if t["k"] == "t":
        v = onp.array([complex(*z) if dt == "c8" else z[0] for z in t["v"]]).astype(dt).reshape(t["s"])
        return jnp.asarray(v)
    xs = [dec(x, dt) for x in t["x"]]
    return dict(zip(t["c"], xs)) if t["k"] == "d" else tuple(xs) if t["k"] == "u" else xs


class Inexact(Exception):
    pass


def enc(o, den, flag):
    if isinstance(o, (dict, list, tuple)):
        ks = sorted(o) if isinstance(o, dict) else range(len(o))
        return dict(k="d" if isinstance(o, dict) else "l" if isinstance(o, list) else "u", s=[], v=[], c=[str(k) for k in ks], x=[enc(o[k], den, flag) for k in ks])
    a = onp.asarray(o).astype("c16").reshape(-1) * den
    w = onp.stack([onp.rint(a.real), onp.rint(a.imag)], 1)
    if not onp.all(onp.isfinite(a)) or onp.any(onp.abs(onp.stack([a.real, a.imag], 1) - w) > 1e-3):
        flag.append(1)
        w = onp.where(onp.isfinite(w), w, 0).clip(-10 ** 8, 10 ** 8)
    return dict(k="t", s=list(onp.shape(o)), v=w.astype(int).tolist(), c=[], x=[])


def axes(sel, as_int):
    if sel["k"] == "all":
        return None
    if sel["k"] == "from":
        return slice(sel["a"], None if sel["b"] < 0 else sel["b"])
    return sel["a"][0] if len(sel["a"]) == 1 and as_int else tuple(sel["a"])


def one(c):
    op = c["op"]
    r = dict(c, e=op, refused=False, msg="", exact=True, b=False)
    flag = []
    dt = "c8" if c["cx"] else "f4"
    f = getattr(tu, op)
    a = dec(c["a"], dt) if "a" in c else None
    b = dec(c["b2"], dt) if "b2" in c else None
    try:
        if op in ("add", "sub", "mul", "div"):
            r["r"] = enc(f(a, b), c["den"], flag)
        elif op in ("neg", "abs", "abs_sqr", "sqrt", "abs_sqrt"):
            r["r"] = enc(f(a), 1, flag)
        elif op == "pow":
            r["r"] = enc(f(a, float(c["k"]) if c["fl"] else c["k"]), 1, flag)
        elif op in ("scalar_add", "scalar_mul"):
            z = complex(*c["z"]) if c["cx"] else float(c["z"][0])
            r["r"] = enc(f(a, jnp.asarray(z) if c["form"] == "arr" else z), 1, flag)
        elif op == "concatenate":
            ts = [dec(t, "f4") for t in c["ts"]]
            ts = tuple(ts) if c["tup"] else ts
            r["r"] = enc(f(ts) if c["ax"] == 0 and c["cx"] else f(ts, axis=c["ax"]), 1, flag)
        elif op == "batch_leaves":
            k = jnp.asarray(c["k"]) if c["arr"] else c["k"]
            kw = dict(length=c["len"]) if c["giveln"] else {}
            r["r"] = enc(f(a, c["size"], k, axis=c["ax"], **kw), 1, flag)
        elif op == "pytree_split":
            p, q = f(a, c["size"], axis=c["ax"])
            r["r"] = enc(p, 1, flag); r["has2"] = q is not None
            r["r2"] = enc(q, 1, flag) if q is not None else r["r"]
        elif op == "random_permute_leaves":
            go = lambda: f(a, jax.random.key(c["seed"]), axis=c["ax"], independent_arrays=c["ia"], independent_leaves=c["il"])
            r["r"] = enc(go(), 1, flag); r["again"] = enc(go(), 1, flag) == r["r"]
        elif op == "mean":
            n = sum(x.size for x in jax.tree.leaves(a))
            m = f(a)
            if m.shape != ():
                raise RuntimeError("not a scalar")
            e = enc(m, n, flag)
            r["n"], r["z"] = n, e["v"][0]
        elif op == "get_shapes":
            s = f(a, axes(c["sel"], c["int"]))
            lf = lambda x: isinstance(x, tuple) and all(isinstance(d, int) for d in x)
            # leaves are tuples; put a mark in their place to compare the structure
            r["form"] = bool(str(jax.tree.structure(jax.tree.map(lambda x: 0, a))) == str(jax.tree.structure(strip(s, a))))
            r["ss"] = [list(x) for x in pick(s, a)]
        elif op == "has_uniform_leaf_shapes":
            r["b"] = bool(f(a, axes(c["sel"], c["int"])))
        elif op in ("uniform_leaf_shapes_equal", "shapes_equal"):
            r["b"] = bool(f(a, b, axes(c["sel"], c["int"])))
        elif op == "all_equal":
            r["b"] = bool(f(a, b))
        elif op == "all_close":
            tol = 10.0 ** -(c["rtol"] or 5)
            if c["gap"] and jax.tree.structure(a) == jax.tree.structure(b):
                ls, td = jax.tree.flatten(b)
                i = len(ls) // 2
                ls[i] = (ls[i].reshape(-1).at[0].set(8).reshape(ls[i].shape)) * (1 + tol * (.3 if c["gap"] == 1 else 3))
                la = jax.tree.leaves(a)
                la[i] = la[i].reshape(-1).at[0].set(8).reshape(la[i].shape)
                a, b = jax.tree.unflatten(td, la), jax.tree.unflatten(td, ls)
            r["b"] = bool(f(a, b, **({"rtol": tol} if c["rtol"] else {})))
        elif op == "any":
            r["b"] = bool(f(jax.tree.map(lambda x: bool(x != 0), a)))
        elif op == "is_single_leaf":
            kw = {}
            if c["nd"] >= 0:
                kw["ndim"] = c["nd"]
            if c["sh"] != [-9]:
                kw["shape"] = tuple(None if d == -1 else d for d in c["sh"])
            with contextlib.redirect_stdout(io.StringIO()):
                ok, x = f(a, **kw)
            r["b"] = bool(ok)
            if ok and x is not jax.tree.leaves(a)[0]:
                raise RuntimeError("another leaf was returned")
        else:
            y = f(a, jnp.dtype(c["want"]))
            r["r"] = enc(y, 1, flag); r["dt"] = [str(x.dtype) for x in jax.tree.leaves(y)]
    except Exception as ex:
        r["refused"] = True; r["msg"] = f"{type(ex).__name__}: {str(ex)[:200]}"
    r["exact"] = not flag
    return r


def strip(s, a):
    """the tree s with its parts at the leaves of a replaced by 0"""
    if isinstance(a, dict):
        return {k: strip(s[k], a[k]) for k in a} if isinstance(s, dict) and set(s) == set(a) else None
    if isinstance(a, (list, tuple)):
        return type(a)(strip(x, y) for x, y in zip(s, a)) if type(s) is type(a) and len(s) == len(a) else None
    return 0


def pick(s, a):
    if isinstance(a, dict):
        return [y for k in sorted(a) for y in pick(s[k], a[k])]
    if isinstance(a, (list, tuple)):
        return [y for i in range(len(a)) for y in pick(s[i], a[i])]
    return [s]


def run(scn):
    return {"trace": dict(ev=[one(c) for c in scn["calls"]])}
