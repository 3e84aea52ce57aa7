"""Connection graphs (C09, C20): graph_util on its own, and whole NonSequentialModels."""
import jax, jax.numpy as jnp, numpy as onp
from parametricmatrixmodels import NonSequentialModel, SequentialModel
from parametricmatrixmodels import graph_util as gu
from parametricmatrixmodels.modules import BaseModule

P = 30011
KEYS = ["a", "b", "x", "y", "foo", "x1", "0", "1", "2", "3", "output", "input", "k"]


def code(k):
    return KEYS.index(k) + 1 if k in KEYS else 99


def hsh(v):
    if v is None:
        return 1
    if isinstance(v, dict):
        r = 0
        for k, c in v.items():
            r = (r + ((code(k) * 37 + 11) * ((hsh(c) + 3) % P)) % P) % P
        return (r + 29) % P
    if isinstance(v, (list, tuple)):
        r = 0
        for i, c in enumerate(v, 1):
            r = (r + ((i * 53 + 5) * ((hsh(c) + 2) % P)) % P) % P
        return (r + 17) % P
    return jnp.round(v).astype(jnp.int32) % P


class Mix(BaseModule):
    """Output = a mixing function of exactly what it was given, and where."""
    __version__ = "0.0.0"

    def __init__(self, mul: int = 1, add: int = 0, out: str = "a") -> None:
        self.mul, self.add, self.out = mul, add, out

    @property
    def name(self) -> str:
        return f"Mix({self.mul})"

    def is_ready(self) -> bool:
        return True

    def build(self, o):
        return {"a": lambda: o(1), "d": lambda: {"a": o(1), "b": o(2)}, "t": lambda: (o(1), o(2)),
                "n": lambda: {"a": o(1), "b": (o(2), o(3))}}[self.out]()

    def _get_callable(self):
        mul, add = self.mul, self.add

        def mix(params, data, training, state, rng):
            s = hsh(data)
            b = jax.tree.leaves(data)[0].shape[0]
            s = jnp.broadcast_to(jnp.asarray(s, jnp.int32), (b, 1))
            return self.build(lambda j: ((mul * s + j * add + j - 1) % P).astype(jnp.float32)), state
        return mix

    def compile(self, rng, input_shape) -> None:
        pass

    def get_output_shape(self, input_shape):
        return self.build(lambda j: (1,))

    def get_hyperparameters(self):
        return dict(mul=self.mul, add=self.add, out=self.out)

    def get_params(self):
        return ()

    def set_params(self, params) -> None:
        pass


def dec_tree(n, mods):
    if n["t"] == "x":
        return build_mod(mods[n["x"]])
    cs = [dec_tree(c, mods) for c in n["c"]]
    return dict(zip(n["k"], cs)) if n["t"] == "d" else cs if n["t"] == "l" else tuple(cs)


def star_tree(n):
    if n["t"] == "x":
        return "*"
    cs = [star_tree(c) for c in n["c"]]
    return dict(zip(n["k"], cs)) if n["t"] == "d" else cs if n["t"] == "l" else tuple(cs)


def build_mod(m):
    if m["kind"] == "mix":
        return Mix(m["mul"], m["add"], m["out"])
    if m["kind"] == "seq":
        return SequentialModel([build_mod(x) for x in m["ms"]])
    return build_graph(m["g"])


def conn_dict(g):
    """dictionary as written: g['w'] = [[key, form, [targets]]]"""
    sep, d = g["sep"], {}
    for key, form, ts in g["w"]:
        ts = [sep.join(t) for t in ts]
        d[sep.join(key)] = ts[0] if form == "s" else ts if form == "l" else tuple(ts)
    return d


def build_graph(g):
    kw = {} if g["sep"] == "." else {"separator": g["sep"]}
    return NonSequentialModel(dec_tree(g["tree"], g["mods"]), conn_dict(g), **kw)


def val(v, i=None):
    if v["t"] == "x":
        return jnp.asarray([[x] for x in v["x"]], jnp.float32)
    cs = [val(c) for c in v["c"]]
    return dict(zip(v["k"], cs)) if v["t"] == "d" else tuple(cs)


def at(v, i):
    if v["t"] == "x":
        return {"t": "x", "x": v["x"][i]}
    return {**v, "c": [at(c, i) for c in v["c"]]}


def shape(v):
    if v["t"] == "x":
        return (1,)
    cs = [shape(c) for c in v["c"]]
    return dict(zip(v["k"], cs)) if v["t"] == "d" else tuple(cs)


def obs(o, i):
    if o is None:
        return {"t": "n"}
    if isinstance(o, dict):
        return {"t": "d", "k": list(o), "c": [obs(c, i) for c in o.values()]}
    if isinstance(o, (list, tuple)):
        return {"t": "l", "c": [obs(c, i) for c in o]}
    a = onp.asarray(o)
    if a.ndim != 2 or a.shape[1] != 1 or i >= a.shape[0] or a[i, 0] != round(float(a[i, 0])):
        return {"t": "x", "x": -5}
    return {"t": "x", "x": int(a[i, 0])}


def slim(g):
    """what the specification reads"""
    def m(x, p):
        if x["kind"] == "mix":
            r = dict(x)
        elif x["kind"] == "seq":
            r = dict(kind="seq", ms=[dict(y) for y in x["ms"]])
        else:
            r = dict(kind="graph", g=slim(x["g"]))
        r["p"] = p
        return r
    return dict(mods=[m(x, p) for x, p in zip(g["mods"], g["paths"])],
                conn=[dict(f=k, t=t) for k, _, ts in g["w"] for t in ts])


def edges(d, sep):
    return [dict(f=k.split(sep), t=v.split(sep)) for k, vs in d.items() for v in vs]


def splitdd(s, sep):
    o, i = s.split(sep + sep)
    return dict(o=o.split(sep), i=i.split(sep) if i else [])


def leaf_edges(t, sep, pre):
    if t is None:
        return []
    if isinstance(t, str):
        return [dict(f=t.split(sep), t=pre)]
    it = t.items() if isinstance(t, dict) else enumerate(t)
    return [e for k, c in it for e in leaf_edges(c, sep, pre + [str(k)])]


def walk(t, p):
    for k in p:
        t = t[k] if isinstance(t, dict) else t[int(k)]
    return t


def str_tree(t, sep):
    if t is None:
        return {"t": "n"}
    if isinstance(t, str):
        return {"t": "x", "x": t.split(sep)}
    if isinstance(t, dict):
        return {"t": "d", "k": list(t), "c": [str_tree(c, sep) for c in t.values()]}
    return {"t": "l", "c": [str_tree(c, sep) for c in t]}


def run(scn):
    ev = []
    for op in scn["ops"]:
        o = op["e"]
        r = dict(e=o, ok=True, msg="")
        try:
            if o == "paths":
                r.update(ps=op["ps"], got=[])
                got = gu.concretize_paths([op["sep"].join(p) for p in op["ps"]], op["sep"])
                r["got"] = [g.split(op["sep"]) if g else [] for g in got]
            elif o == "resolve":
                r.update(E=op["E"], ord=[])
                g = {}
                for a, b in op["E"]:
                    g.setdefault(a, []).append(b)
                order, _ = gu.resolve_connections(g)
                r["ord"] = list(order)
            elif o == "model":
                g = op["g"]
                r.update(g=slim(g), ord=[], runs=[dict(out={"t": "n"}, **{"in": at(op["data"], i)}) for i in range(op["n"])])
                m = build_graph(g)
                m.compile(op["seed"], shape(op["data"]))
                r["ord"] = [p.split(g["sep"]) for p in m.get_execution_order()]
                out = m(val(op["data"]))
                for i in range(op["n"]):
                    r["runs"][i]["out"] = obs(out, i)
            else:
                g = op["g"]
                sep, w, tree = g["sep"], conn_dict(g), star_tree(g["tree"])
                r.update(mods=g["paths"], conn=[dict(f=k, t=t) for k, _, ts in g["w"] for t in ts], got=[])
                kw = {} if sep == "." else {"separator": sep}
                if o == "place":
                    r.update(ins=[], rem={"t": "n"}, mixed=g["mixed"])
                    placed, rem = gu.place_connections_in_tree(w, tree, **kw)
                    if isinstance(placed, dict):
                        placed = {k: c for k, c in placed.items() if k != "output"}
                    r["rem"] = str_tree(rem, sep)
                    targets = [c["t"] for c in r["conn"]]
                    r["ins"] = [dict(m=p, v=str_tree(walk(placed, p), sep)) for p in g["paths"]
                                if any(t[:len(p)] == p for t in targets)]
                    r["got"] = leaf_edges(placed, sep, []) + leaf_edges(rem, sep, ["output"])
                elif o == "conc":
                    r["got"] = edges(gu.concretize_connections(w, tree, **kw), sep)
                elif o == "outer":
                    r["got"] = edges(gu.get_outer_connections_by_tree(w, tree, **kw), sep)
                elif o == "part":
                    res = gu.partition_connections_by_tree(w, tree, **kw)
                    r["got"] = [dict(f=splitdd(k, sep), t=splitdd(v, sep)) for k, vs in res.items() for v in vs]
        except Exception as ex:
            r["ok"] = False
            r["msg"] = f"{type(ex).__name__}: {ex}"[:200]
        ev.append(r)
    return {"trace": dict(ev=ev)}
