"""Runs array modules on integer data and records what they compute, sample by sample (C11)."""
import traceback, warnings
import jax, jax.numpy as jnp, numpy as onp
import parametricmatrixmodels as pmm
import zoo_build as zb

warnings.simplefilter("ignore")


def ints(r, shape, cplx, lo=-2, hi=3):
    a = r.randint(lo, hi, shape).astype("f4")
    return (a + 1j * r.randint(lo, hi, shape)).astype("c8") if cplx else a


def herm(r, shape):
    a = ints(r, shape, True, -1, 2)
    return (a + onp.conj(onp.swapaxes(a, -1, -2))).astype("c8")


def monomial(r, shape):
    """Hermitian with diagonal square, so that the norm is that of the longest row"""
    out = onp.zeros(shape, "c8")
    n = shape[-1]
    for ix in onp.ndindex(*shape[:-2]):
        free = list(r.permutation(n))
        while free:
            i = free.pop()
            if free and r.rand() < .6:
                j = free.pop()
                z = complex(r.randint(-2, 3), r.randint(-2, 3))
                out[ix][i, j], out[ix][j, i] = z, z.conjugate()
                if r.rand() < .6:
                    a = r.randint(-2, 3)
                    out[ix][i, i], out[ix][j, j] = a, -a
            else:
                out[ix][i, i] = r.randint(-3, 4)
    return out


def diagonal(r, shape):
    """distinct integers on the diagonals of the first matrix, so that most spectra are simple"""
    out = onp.zeros(shape, "c8")
    for p in range(shape[0]):
        for i, v in enumerate(r.permutation(9)[:shape[1]] * (1 if p else 1) - (0 if p == 0 else 3)):
            out[p, i, i] = v
    return out


def value(v):
    if isinstance(v, dict) and "arr" in v:
        r = onp.random.RandomState(v["seed"])
        s = tuple(v["arr"])
        a = {0: lambda: ints(r, s, v["c"]), 1: lambda: herm(r, s), 2: lambda: monomial(r, s), 3: lambda: diagonal(r, s)}[v["herm"]]()
        return jnp.asarray(a)
    if isinstance(v, dict) and "tup" in v:
        return tuple(value(x) for x in v["tup"])
    if isinstance(v, dict) and "dict" in v:
        return {k: value(x) for k, x in v["dict"]}
    if isinstance(v, dict) and "m" in v:
        return build(v)
    if isinstance(v, list):
        return [value(x) for x in v]
    return v


def build(d):
    import parametricmatrixmodels.modules as M
    return getattr(M, d["m"])(*[value(x) for x in d.get("args", [])], **{k: value(x) for k, x in d["kw"].items()})


def entry(z, f):
    z = complex(z) * f
    return [int(round(z.real)), int(round(z.imag))]


def node(t, f=1):
    if isinstance(t, dict):
        ks = sorted(t)
        return dict(k="d", s=[], v=[], c=ks, x=[node(t[k], f) for k in ks])
    if isinstance(t, (list, tuple)):
        return dict(k="l" if isinstance(t, list) else "u", s=[], v=[], c=[str(i) for i in range(len(t))], x=[node(x, f) for x in t])
    a = onp.asarray(t)
    return dict(k="t", s=list(a.shape), v=[entry(z, f) for z in a.reshape(-1)], c=[], x=[])


def samples(y, n, f):
    return [node(jax.tree.map(lambda a: onp.asarray(a)[i], y), f) for i in range(n)]


def exact(y):
    for a in jax.tree.leaves(y):
        a = 2 * onp.asarray(a).astype("c16")
        if not onp.all(onp.isfinite(a)) or onp.any(onp.abs(a - onp.round(a.real) - 1j * onp.round(a.imag)) > 2e-2 + 1e-6 * onp.abs(a)):
            return False
    return True


GIVEN = ("params", "bias", "constant", "Ms", "Ds", "b")


def parameters(m, d, own, r):
    """puts integers into the parameters of a compiled module; the arrays in use (leaves in order)"""
    kw = d["kw"]
    given = [k for k in GIVEN if k in kw and k in kw and not isinstance(kw[k], bool)]
    name = d["m"]
    centered = kw.get("centered", True)
    p = m.get_params()
    lv, td = jax.tree.flatten(p)
    if name in ("Einsum", "MatMul") and "params" in kw and (own or not kw.get("trainable")):
        return jax.tree.leaves(value(kw["params"]))
    if name == "Constant" and "constant" in kw and (own or not kw.get("trainable")):
        return jax.tree.leaves(value(kw["constant"]))
    if name == "Bias" and "bias" in kw and (own or kw.get("trainable") is False):
        b = kw["bias"]
        return [jnp.asarray([b], "f4")] if isinstance(b, float) else jax.tree.leaves(value(b))
    new = []
    for i, a in enumerate(lv):
        c, s = jnp.iscomplexobj(a), a.shape
        if name == "AffineObservablePMM":
            key = {3: "Ms", 4: "Ds"}.get(len(s))
            v = value(kw[key]) if key in kw else diagonal(r, s) if key == "Ms" else (monomial if centered else herm)(r, s) if key == "Ds" else ints(r, s, c)
        elif name in ("TransitionAmplitudeSum", "ExpectationValueSum"):
            v = value(kw["Ds"]) if own and "Ds" in kw else (monomial if centered else herm)(r, s)
        elif name == "AffineHermitianMatrix":
            v = value(kw["Ms"]) if own and "Ms" in kw else herm(r, s)
        elif name == "AffineTensor":
            v = value(kw["Ms"]) if own and "Ms" in kw else ints(r, s, c)
        else:
            v = ints(r, s, c)
        new.append(jnp.asarray(v, a.dtype))
    if lv and not (own and given and name in ("AffineHermitianMatrix", "AffineTensor", "TransitionAmplitudeSum", "ExpectationValueSum")):
        m.set_params(jax.tree.unflatten(td, new))
    return new


def simple(view, par, X):
    """keys of the spectrum differ for every sample"""
    ms = onp.asarray(par[0]).real
    for x in jax.tree.leaves(X)[0]:
        x = onp.asarray(x)
        s = onp.array([onp.diag(m) for m in ms])
        e = s[0] + x @ s[1:] if view["bias"] else x @ s
        k = onp.abs(e) if view["by"] == "M" else e
        if len(set(onp.round(k).astype(int).tolist())) < len(k):
            return False
    return True


def run(scn):
    n = scn["n"]
    r = onp.random.RandomState(scn["seed"])
    types = scn["tin"]

    def leafdata(t):
        if "s" in t:
            return jnp.asarray(ints(r, (n, *t["s"]), t["c"], -3, 4))
        if "d" in t:
            return {k: leafdata(x) for k, x in t["d"]}
        return tuple(leafdata(x) for x in t["u"]) if "u" in t else [leafdata(x) for x in t["l"]]
    X = leafdata(types)
    ev = []
    tr = dict(x=samples(X, n, 1), ev=ev, mods=[])
    cx = any(jnp.iscomplexobj(x) for x in jax.tree.leaves(X))
    for how in scn["how"]:
        e = dict(ok=True, msg="", how=how + " " + ", ".join(x["mod"]["m"] for x in scn["mods"]), y=[], exact=True)
        try:
            ms = [build(x["mod"]) for x in scn["mods"]]
            rr = onp.random.RandomState(scn["seed"] + 1)
            if how == "module":
                ms[0].compile(jax.random.key(1), zb.shapes(types))
                obj = ms[0]
            else:
                obj = pmm.SequentialModel(ms, rng=2)
                obj.compile(3, zb.shapes(types))
            for a in range(20):
                par = [parameters(m, x["mod"], scn["own"], rr) for m, x in zip(ms, scn["mods"])]
                if all(x["view"]["m"] != "affobs" or (len(ms) == 1 and simple(x["view"], p, X)) for x, p in zip(scn["mods"], par)):
                    break
            else:
                return {"skip": True, "trace": dict(x=[], ev=[], mods=[])}
            tr["mods"] = [dict(x["view"], par=[node(onp.asarray(q)) for q in p]) for x, p in zip(scn["mods"], par)]
            if how == "module" and isinstance(obj, pmm.Model):
                y = obj(X, dtype=jnp.complex64 if cx else jnp.float32)
            elif how == "module":
                y, _ = obj(X, training=False, state=obj.get_state(), rng=jax.random.key(0))
            else:
                kw = dict(max_batch_size=scn["batch"]) if scn["batch"] else {}
                y = obj(X, dtype=jnp.complex64 if cx else jnp.float32, **kw)
            e["y"] = samples(y, n, 2); e["exact"] = exact(y)
        except Exception as ex:
            e["ok"] = False; e["msg"] = f"{how} {[x['mod'] for x in scn['mods']]} {type(ex).__name__}: {str(ex)[:300]}"; e["tb"] = traceback.format_exc()[-2500:]
        ev.append(e)
    return {"trace": tr}
