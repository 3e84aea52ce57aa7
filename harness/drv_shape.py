"""Runs histories of compilation, declaration and use with right and wrong data (C10)."""
import traceback, warnings
import jax, jax.numpy as jnp, numpy as onp
import parametricmatrixmodels as pmm
import zoo_build as zb

warnings.simplefilter("ignore")


class Classes:
    def __init__(self):
        self.d = {}

    def __call__(self, key):
        return self.d.setdefault(repr(key), len(self.d))


def shape_tree(t):
    """canonical form of a tree of shapes"""
    if isinstance(t, tuple) and all(isinstance(i, (int, onp.integer)) and not isinstance(i, bool) for i in t):
        return ["s"] + [int(i) for i in t]
    if isinstance(t, dict):
        return ["d"] + [[k, shape_tree(t[k])] for k in sorted(t)]
    if isinstance(t, (list, tuple)):
        return ["l" if isinstance(t, list) else "u"] + [shape_tree(x) for x in t]
    return ["?", str(t)]


def real(y):
    """the per-sample shapes of data, and whether all leaves have n samples"""
    return shape_tree(jax.tree.map(lambda x: tuple(x.shape[1:]), y))


def digest(m):
    lv = [onp.asarray(x).tobytes() for x in jax.tree.leaves((m.get_params(), m.get_state(), getattr(m, "_optimizer_state", None)))]
    return (hash(tuple(lv)), str(jax.tree.structure(m.get_params())), str(m.input_shape), str(m.output_shape), m.is_ready(),
            onp.asarray(jax.random.key_data(m.get_rng())).tolist(), str(jax.tree.structure(m.modules)))


def run(scn):
    cl = Classes()
    types = scn["types"]
    sh = [zb.shapes(t) for t in types]
    m = zb.build(scn["model"], rng=3)
    seq = scn["model"]["m"] == "seq"
    ev = []
    tr = dict(ev=ev, expect=cl(scn["expect"]))
    for h in scn["hist"]:
        op, j = h["op"], h["j"]
        r = dict(op=op, j=j, w=h["w"], ok=True, refused=False, msg="", out=-1, mid=[], cnt=True, sure=scn["poly"] and j in (1, 2))
        try:
            if op == "compile":
                m.compile(5, sh[j - 1])
                o = shape_tree(m.output_shape)
                r["out"] = cl(o); r["msg"] = str(m.output_shape)
                if seq:
                    s = sh[j - 1]
                    for q in jax.tree.leaves(m.modules):
                        s = q.get_output_shape(s)
                        r["mid"].append(cl(shape_tree(s)))
            elif op == "declare":
                o = m.get_output_shape(sh[j - 1])
                r["out"] = cl(shape_tree(o)); r["msg"] = str(o)
            elif op == "edit":
                m.append_module(pmm.modules.Comment("x"), key="zzz") if seq else m.reset()
            else:
                n, t = h["n"], types[j - 1]
                X = zb.data(t, n, scn["seed"])
                dt = zb.in_dtype(t)
                r["msg"] = f"{h['w']} {real(X)} compiled for {m.input_shape}"
                if h["w"] == "predict":
                    kw = {} if scn["seed"] % 3 else dict(max_batch_size=2)
                    y = m(X, dtype=dt, **kw)
                    r["out"] = cl(real(y)); r["cnt"] = all(x.shape[0] == n for x in jax.tree.leaves(y))
                    r["msg"] += f" result {real(y)}"
                    if seq:
                        z = pmm.model_util.safecast(X, dt) if hasattr(pmm.model_util, "safecast") else X
                        for q in jax.tree.leaves(m.modules):
                            z = q(z, dtype=jnp.result_type(*jax.tree.leaves(z))) if isinstance(q, pmm.Model) else q(z, state=q.get_state(), rng=jax.random.key(1))[0]
                            r["mid"].append(cl(real(z)))
                elif h["w"] == "train":
                    o = m.output_shape
                    Y = jax.tree.map(lambda s: jnp.zeros((n,) + tuple(s)), o, is_leaf=lambda s: isinstance(s, tuple) and all(isinstance(i, int) for i in s))
                    m.train(X, Y, epochs=1, batch_size=n, verbose=False, loss_fn=lambda e, x, y, p: sum(jnp.mean(jnp.abs(a) ** 2) for a in jax.tree.leaves(p)))
                else:
                    getattr(m, h["w"])(X, dtype=dt)
        except Exception as ex:
            r["ok"] = False; r["refused"] = True
            r["msg"] += f" {type(ex).__name__}: {str(ex)[:200]}"; r["tb"] = traceback.format_exc()[-1500:]
        try:
            r["ready"] = bool(m.is_ready()); r["dig"] = cl(digest(m))
        except Exception as ex:
            r["ready"] = False; r["dig"] = -2
        ev.append(r)
        if op in ("compile", "edit") and not r["ok"]:
            break
    return {"trace": tr}
