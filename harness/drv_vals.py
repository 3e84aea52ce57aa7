"""Runs histories of reads, writes and precision changes on real models (C22)."""
import traceback, warnings
import jax, jax.numpy as jnp, numpy as onp
import parametricmatrixmodels as pmm
import zoo_build as zb

warnings.simplefilter("ignore")


class Classes:
    def __init__(self):
        self.d = {}

    def __call__(self, key):
        return self.d.setdefault(key, len(self.d))


def exact(tree):
    """structure, shapes and exact values, whatever the precision"""
    lv = [onp.asarray(x) for x in jax.tree.leaves(tree)]
    return (str(jax.tree.structure(tree)), tuple((x.shape, (x.astype("c16") + 0).tobytes()) for x in lv))


def kind(x):
    return onp.asarray(x).dtype.kind


def bits(tree):
    return [{"f": 8, "c": 4}[kind(x)] * onp.asarray(x).dtype.itemsize for x in jax.tree.leaves(tree) if kind(x) in "fc"]


def table(tree, v, p, state=False):
    """values number v for a tree like this, in precision p; -> (jax tree, the values as written)"""
    r = onp.random.RandomState(77 if v == "a" else 78)
    lv, td = jax.tree.flatten(tree)
    out = []
    for x in lv:
        x = onp.asarray(x)
        k, s = x.dtype.kind, x.shape
        if k not in "fc":
            out.append(jnp.asarray(r.randint(0, 5, s).astype(x.dtype))); continue
        part = lambda: r.randint(-6, 7, s) / 8 + (0 if state else r.randint(0, 4, s) * 2.0 ** -40)
        a = part() + (1j * part() if k == "c" else 0)
        if len(s) >= 2 and s[-1] == s[-2]:
            a = a + onp.conj(onp.swapaxes(a, -1, -2))
        a = a.astype({"f": "f", "c": "c"}[k] + {("f", 32): "4", ("f", 64): "8", ("c", 32): "8", ("c", 64): "16"}[(k, p)])
        out.append(jnp.asarray(a))
    return jax.tree.unflatten(td, out)


def spoil(tree, how):
    """like a full set of new values, but wrong somewhere; None if there is nothing to spoil"""
    new = jax.tree.map(lambda x: x + jnp.ones_like(x), tree)
    lv, td = jax.tree.flatten(new)
    if how == "wrap":
        return {"w": new, "z": ()} if lv else None
    if how in ("missing", "extra"):
        if isinstance(new, dict):
            n = dict(new)
            if how == "missing":
                n.pop(sorted(n)[-1])
            else:
                n["zz"] = jnp.ones((1,))
            return n
        n = list(new)
        n = n[:-1] if how == "missing" else n + [jnp.ones((1,))]
        return tuple(n) if isinstance(new, tuple) else n
    if not lv:
        return None
    i = len(lv) - 1 if how.startswith("last") else 0
    x = lv[i]
    if how.endswith("shape"):
        x = jnp.concatenate([x, x[:1]]) if x.ndim else jnp.stack([x, x])
    elif how.endswith("rank"):
        x = x[None]
    elif how == "scalar":
        if x.ndim == 0:
            x = x[None]
        else:
            x = x.reshape(-1)[0]
    elif how == "empty":
        x = ()
    lv[i] = x
    return jax.tree.unflatten(td, lv)


def arg(how):
    return {"32": 32, "64": 64, "np32": jnp.float32, "np64": jnp.float64, "npc64": jnp.complex64, "npc128": jnp.complex128}.get(how, how)


def run(scn):
    t, x64 = scn["tin"], scn["x64"]
    dt = zb.in_dtype(t, x64)
    X = zb.data(t, 3, scn["seed"])
    cl, outs = Classes(), []
    slots, ev = {}, []

    def fresh(k):
        m = zb.build(scn["model"], rng=int(k) + 5)
        m.compile(int(k) + 20, zb.shapes(t))
        return m
    m0 = fresh("1")
    p0, s0 = m0.get_params(), m0.get_state()
    full, rnd = {}, {}
    for v in "ab":
        full[v] = cl(exact(table(p0, v, 64 if x64 else 32)))
        rnd[v] = cl(exact(table(p0, v, 32)))
    tr = dict(ev=ev, x64=x64, full=full, round=rnd, sval={"a": cl(exact(table(s0, "a", 32, True)))}, kinds=[kind(x) for x in jax.tree.leaves(p0)],
              skinds=[kind(x) for x in jax.tree.leaves(s0)], params=len(jax.tree.leaves(p0)) > 0, stateful=len(jax.tree.leaves(s0)) > 0,
              smooth=scn["smooth"])
    for h in scn["hist"]:
        op, s = h["op"], h["s"]
        r = dict(op=op, s=s, a=h["a"], p=h.get("p", 0), ok=True, skip=False, msg=h.get("how", ""), omsg="")
        m = slots.get(s)
        try:
            if op == "new":
                m = slots[s] = fresh(h["a"])
            elif op == "write":
                m.set_params(table(m.get_params(), h["a"], h["p"]))
            elif op == "wstate":
                m.set_state(table(m.get_state(), "a", h["p"], True))
            elif op == "back":
                m.set_params(m.get_params())
            elif op == "sback":
                m.set_state(m.get_state())
            elif op in ("bad", "sbad"):
                b = spoil(m.get_params() if op == "bad" else m.get_state(), h["how"])
                if b is None:
                    r["skip"] = True
                else:
                    (m.set_params if op == "bad" else m.set_state)(b)
            elif op == "cast":
                if h["via"] == "astype":
                    if m.astype(arg(h["how"])) is not m:
                        raise RuntimeError("astype does not return the model")
                else:
                    m.set_precision(arg(h["how"]))
            elif op == "feed":
                m(zb.data(t, 2, 100), dtype=dt, update_state=True)
        except Exception as ex:
            r["ok"] = False; r["msg"] += f" {type(ex).__name__}: {str(ex)[:300]}"; r["tb"] = traceback.format_exc()[-1500:]
        p, st = m.get_params(), m.get_state()
        r.update(par=cl(exact(p)), st=cl(exact(st)), kinds=[kind(x) for x in jax.tree.leaves(p)], skinds=[kind(x) for x in jax.tree.leaves(st)],
                 bits=bits(p), sbits=bits(st), out=-1, tol=-1)
        try:
            y = m(X, dtype=dt)
            lv = [onp.asarray(x) for x in jax.tree.leaves(y)]
            r["out"] = cl(("out", str(jax.tree.structure(y)), tuple((x.shape, x.dtype.str, x.tobytes()) for x in lv)))
            v = onp.concatenate([x.reshape(-1).astype("c16") for x in lv])
            for k, w in enumerate(outs):
                if len(w) == len(v) and onp.all((onp.abs(v - w) <= 2e-3 * (1 + onp.abs(w).max(initial=0))) | (onp.isnan(v) & onp.isnan(w)) | (v == w)):
                    r["tol"] = k; break
            else:
                r["tol"] = len(outs); outs.append(v)
        except Exception as ex:
            r["omsg"] = f"{type(ex).__name__}: {str(ex)[:300]}"
        ev.append(r)
    return {"trace": tr}
