"""Runs histories of predictions with batch limits (C08)."""
import traceback, warnings, hashlib
import jax, jax.numpy as jnp, numpy as onp
import parametricmatrixmodels as pmm
import probes, zoo_build as zb
from drv_conf import tree_of

warnings.simplefilter("ignore")
R = probes.Roll


def build(layout, seed):
    S = pmm.SequentialModel
    if layout == "one":
        return S([R(1.0)], rng=seed)
    if layout == "two":
        return S((R(1.0), R(2.0)), rng=seed)
    if layout == "nested":
        return S([R(1.0), S([R(2.0), R(3.0)])], rng=seed)
    if layout == "named":
        return S({"a": R(1.0), "b": R(2.0)}, rng=seed)
    if layout == "deep":
        return S([S([S([R(1.0)])])], rng=seed)
    return pmm.NonSequentialModel({"p": R(1.0), "g": {"q": R(2.0)}}, {"input": "p", "p": "g.q", "g.q": "output"}, rng=seed)


def order(m, layout):
    """modules in the order they are applied"""
    ms = m.modules
    if layout == "nested":
        return [ms[0], *ms[1].modules]
    if layout == "named":
        return [ms["a"], ms["b"]]
    if layout == "graph":
        return [ms["p"], ms["g"]["q"]]
    if layout == "deep":
        return [ms[0].modules[0].modules[0]]
    return list(ms)


def num(x):
    x = onp.asarray(x, "f8").reshape(-1)
    return int(x[0]) if x.size and onp.isfinite(x[0]) and x[0] == int(x[0]) else -77777


class Exact:
    def __init__(self, scn):
        self.scn = scn
        self.t = scn["tin"]
        self.m = build(scn["layout"], 4)
        self.key = "4"
        self.n = len(order(self.m, scn["layout"]))
        self.m.compile(self.seed0(), tree_of(self.t, tuple))
        self.key = "c1"

    def seed0(self):
        return 1

    def mods(self):
        return order(self.m, self.scn["layout"])

    def states(self):
        return [num(q.get_state()) for q in self.mods()]

    def pars(self):
        return [num(q.get_params()) for q in self.mods()]

    def data(self, ids, dt):
        a = onp.asarray(ids, "f4")
        return tree_of(self.t, lambda s: jnp.asarray(onp.broadcast_to(a.reshape((-1,) + (1,) * len(s)), (len(ids),) + s)))

    def read(self, out, r):
        log = onp.asarray(out["log"])
        r["rows"] = [[[num(v) for v in row[6 * k:6 * k + 6]] for k in range(self.n)] for row in log]
        if log.shape[1:] != (6 * self.n,):
            raise RuntimeError(f"log {log.shape}")
        if jax.tree.structure(out["x"]) != jax.tree.structure(self.data([1], "")):
            raise RuntimeError("structure of the output")
        for x in jax.tree.leaves(out["x"]):
            x = onp.asarray(x).reshape(x.shape[0], -1)
            r["order"].append([num(v[:1]) if onp.all(v == v[0]) else -1 for v in x])


class Zoo:
    def __init__(self, scn):
        self.scn, self.t = scn, scn["tin"]
        self.m = zb.build(scn["model"], rng=4)
        self.m.compile(9, zb.shapes(self.t))
        self.all = zb.data(self.t, 8, scn["seed"])
        self.dt = zb.in_dtype(self.t)
        self.seen = []
        self.key, self.n = "", 0

    def states(self):
        return []

    def pars(self):
        h = hashlib.sha1()
        for p in jax.tree.leaves(self.m.get_params()):
            h.update(onp.asarray(p).tobytes())
        return [h.hexdigest()[:12]]

    def data(self, ids, dt):
        ix = onp.asarray(ids) - 1
        return jax.tree.map(lambda x: x[ix], self.all)

    def read(self, out, r):
        lv = [onp.asarray(x) for x in jax.tree.leaves(out)]
        n = len(r["ids"])
        if any(x.shape[0] != n for x in lv):
            raise RuntimeError("number of results " + str([x.shape for x in lv]))
        for i in range(n):
            v = onp.concatenate([x[i].reshape(-1).astype("c16") for x in lv])
            for k, w in enumerate(self.seen):
                if len(w) == len(v) and onp.all((onp.abs(v - w) <= 2e-3 * (1 + onp.abs(w).max(initial=0))) | (onp.isnan(v) & onp.isnan(w)) | (v == w)):
                    r["cls"].append(k); break
            else:
                r["cls"].append(len(self.seen)); self.seen.append(v)


def run(scn):
    b = Exact(scn) if scn["exact"] else Zoo(scn)
    m, ev = b.m, []
    tr = dict(mods=b.n, st0=b.states(), pars0=b.pars(), ev=ev)
    ver = 0
    for j, h in enumerate(scn["hist"]):
        if h["op"] == "call":
            r = dict(e="call", ids=h["ids"], mbs=h["mbs"], upd=h["upd"], key="", ok=True, msg="", rows=[], cls=[], order=[], ret=[])
            try:
                X = b.data(h["ids"], h["dt"])
                kw = {}
                if h["key"] >= 0:
                    kw["rng"] = h["key"] if h["key"] else jax.random.key(0)
                r["key"] = "k" + str(h["key"]) if h["key"] >= 0 else b.key
                if not scn["exact"]:
                    kw["dtype"] = b.dt
                elif h["dt"]:
                    kw["dtype"] = jnp.float32
                if h["mbs"]:
                    kw["max_batch_size"] = h["mbs"]
                if h["av"]:
                    kw["avoid_recompilation"] = True
                if h["verbose"]:
                    kw["verbose"] = True
                out = (m if j % 2 else m.predict)(X, update_state=h["upd"], return_state=h["ret"], **kw)
                if h["ret"]:
                    out, ns = out
                    if scn["exact"]:
                        lv = [num(x) for x in jax.tree.leaves(ns)]
                        r["ret"] = [lv[i] for i in applied(m, scn["layout"])]
                b.read(out, r)
            except Exception as ex:
                r["ok"] = False; r["msg"] = f"{type(ex).__name__}: {str(ex)[:300]}"; r["tb"] = traceback.format_exc()[-1500:]
            r["st"], r["pars"] = b.states(), b.pars()
        else:
            r = dict(e="set", what=h["what"], ok=True, msg="", stwant=b.states(), parswant=b.pars())
            try:
                ver += 1
                if h["what"] == "par":
                    p = m.get_params()
                    if scn["exact"]:
                        m.set_params(jax.tree.map(lambda x: x + 10 * ver, p))
                        r["parswant"] = [x + 10 * ver for x in r["parswant"]]
                    else:
                        m.set_params(jax.tree.map(lambda x: x * 1.25, p))
                        r["parswant"] = b.pars()
                elif h["what"] == "st":
                    m.set_state(jax.tree.map(lambda x: x * 0 + 17 * ver, m.get_state()))
                    r["stwant"] = [17 * ver] * b.n
                elif h["what"] == "key":
                    m.set_rng(20 + ver); b.key = "s" + str(ver)
                else:
                    m.compile(30 + ver, tree_of(b.t, tuple)); b.key = "c" + str(30 + ver)
            except Exception as ex:
                r["ok"] = False; r["msg"] = f"{type(ex).__name__}: {str(ex)[:300]}"; r["tb"] = traceback.format_exc()[-1500:]
            r["st"], r["pars"] = b.states(), b.pars()
        ev.append(r)
        if not r["ok"]:
            break
    return {"trace": tr}


def applied(m, layout):
    """places in the flattened state tree, in the order of application"""
    rolls = []

    def walk(ms):
        for q in jax.tree.leaves(ms):
            if isinstance(q, R):
                rolls.append(q)
            else:
                walk(q.modules)
    walk(m.modules)
    return [next(i for i, q in enumerate(rolls) if q is x) for x in order(m, layout)]
