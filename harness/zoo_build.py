"""Turns zoo descriptions into real modules, models and data."""
import jax, jax.numpy as jnp, numpy as onp
import parametricmatrixmodels as pmm
import parametricmatrixmodels.modules as M
import probes


def value(v):
    if isinstance(v, dict):
        if "arr" in v:
            r = onp.random.RandomState(v["seed"])
            a = r.randint(-4, 5, v["arr"]).astype(onp.float32) / 4
            if v["c"]:
                a = (a + 1j * r.randint(-4, 5, v["arr"]) / 4).astype(onp.complex64)
            if v["herm"]:
                a = (a + onp.conj(onp.swapaxes(a, -1, -2))) / 2
            return jnp.asarray(a)
        if "tup" in v:
            return tuple(value(x) for x in v["tup"])
        if "dict" in v:
            return {k: value(x) for k, x in v["dict"]}
        if "m" in v:
            return build(v)
    if isinstance(v, list):
        return [value(x) for x in v]
    return v


def build(d, **kw):
    if d["m"] == "seq":
        ms = [build(x) for x in d["mods"]]
        if d["kind"] == "d":
            ms = {f"k{i}": m for i, m in enumerate(ms)}
        elif d["kind"] == "u":
            ms = tuple(ms)
        return pmm.SequentialModel(ms, **kw)
    if d["m"] == "ns":
        ms = [build(x) for x in d["mods"]]
        names = list(d["names"])
        if d["group"]:
            tree = {names[0]: ms[0], "grp": dict(zip(names[1:], ms[1:]))}
            paths = [names[0]] + ["grp." + n for n in names[1:]]
        else:
            tree, paths = dict(zip(names, ms)), names
        con, prev = {}, "input"
        for p in paths:
            con[prev] = p; prev = p
        con[prev] = "output"
        return pmm.NonSequentialModel(tree, con, **kw)
    return getattr(M if hasattr(M, d["m"]) else probes, d["m"])(*[value(x) for x in d.get("args", [])], **{k: value(x) for k, x in d["kw"].items()})


def untag(t):
    return t["herm"] if "herm" in t else t


def shapes(t):
    t = untag(t)
    if "s" in t:
        return tuple(t["s"])
    if "d" in t:
        return {k: shapes(x) for k, x in t["d"]}
    return tuple(shapes(x) for x in t["u"]) if "u" in t else [shapes(x) for x in t["l"]]


def data(t, n, seed, herm=None, scale=4.0, ints=False):
    """n samples of a type; every leaf its own numbers"""
    cnt = [0]

    def leaf(x, h):
        cnt[0] += 1
        r = onp.random.RandomState((seed * 1009 + cnt[0]) % (2 ** 31))
        s = [n] + list(x["s"])
        a = r.randint(-8, 9, s).astype(onp.float32)
        if x["c"]:
            a = (a + 1j * r.randint(-8, 9, s)).astype(onp.complex64)
        if h:
            a = a + onp.conj(onp.swapaxes(a, -1, -2))
        return jnp.asarray(a if ints else (a / scale).astype(a.dtype))

    def go(x, h):
        if "herm" in x:
            return go(x["herm"], True)
        if "s" in x:
            return leaf(x, h)
        if "d" in x:
            return {k: go(y, h) for k, y in x["d"]}
        return tuple(go(y, h) for y in x["u"]) if "u" in x else [go(y, h) for y in x["l"]]
    return go(t, False)


def is_complex(t):
    t = untag(t)
    if "s" in t:
        return bool(t["c"])
    return any(is_complex(x) for x in ([y for _, y in t["d"]] if "d" in t else t.get("l", t.get("u"))))


def in_dtype(t, x64=False):
    """the dtype argument a prediction on data of this type needs"""
    if is_complex(t):
        return jnp.complex128 if x64 else jnp.complex64
    return jnp.float64 if x64 else jnp.float32
