"""Runs histories of gradients, assignments and edits (C18)."""
import traceback, warnings, hashlib
import jax, jax.numpy as jnp, numpy as onp
import parametricmatrixmodels as pmm
import probes, zoo_build as zb

warnings.simplefilter("ignore")
S = pmm.SequentialModel
is_shape = lambda s: isinstance(s, tuple) and all(isinstance(i, int) for i in s)


def whole(a):
    a = onp.asarray(a, "f8")
    if a.size and (not onp.all(onp.isfinite(a)) or onp.any(a != onp.round(a)) or onp.abs(a).max() > 2e9):
        raise RuntimeError("not whole numbers: " + str(a.reshape(-1)[:6]))
    return a.astype("i8").tolist()


def build(layout, ms):
    if layout in ("list", "tuple"):
        return S(ms if layout == "list" else tuple(ms), rng=1)
    if layout == "named":
        return S({f"k{i}": q for i, q in enumerate(ms)}, rng=1)
    if layout == "nested":
        return S([ms[0], S(list(ms[1:]))], rng=1)
    if layout == "deep":
        return S([S([S([q])]) for q in ms], rng=1)
    con, prev = {}, "input"
    names = [f"g.m{i}" if i % 2 else f"m{i}" for i in range(len(ms))]
    tree = {}
    for n, q in zip(names, ms):
        if n.startswith("g."):
            tree.setdefault("g", {})[n[2:]] = q
        else:
            tree[n] = q
        con[prev] = n; prev = n
    con[prev] = "output"
    return pmm.NonSequentialModel(tree, con, rng=1)


def parts(layout, tree, n):
    """what belongs to each module, in the order of application, out of a tree shaped like the model's modules"""
    sub = lambda x: x.modules if isinstance(x, pmm.Model) else x
    tree = sub(tree)
    if layout in ("list", "tuple"):
        return list(tree)
    if layout == "named":
        return [tree[f"k{i}"] for i in range(n)]
    if layout == "nested":
        return [tree[0], *sub(tree[1])]
    if layout == "deep":
        return [sub(sub(x)[0])[0] for x in tree]
    return [tree["g"][f"m{i}"] if i % 2 else tree[f"m{i}"] for i in range(n)]


def replace(m, layout, i, new):
    if layout in ("list", "tuple"):
        m[i] = new
    elif layout == "named":
        m[f"k{i}"] = new
    elif layout == "nested":
        if i == 0:
            m[0] = new
        else:
            m[1][i - 1] = new
    elif layout == "deep":
        m[i][0][0] = new
    elif i % 2:
        m[("g", f"m{i}")] = new
    else:
        m[f"m{i}"] = new


def flat(y, n):
    """leaves of a tree of data as one matrix (samples, entries)"""
    return onp.concatenate([onp.asarray(x, "f8").reshape(n, -1) for x in jax.tree.leaves(y)], axis=1)


class Exact:
    def __init__(self, scn):
        self.scn, self.lay = scn, scn["layout"]
        self.k = len(scn["mods"])
        self.m = build(self.lay, [self.module(i, d) for i, d in enumerate(scn["mods"])])
        self.sh = probes.type_shapes(scn["tin"])
        self.m.compile(3, self.sh)

    def module(self, i, d):
        return probes.Calc(d, self.scn["tout"] if i == self.scn["last"] else None)

    def mods(self):
        return parts(self.lay, self.m, self.k)

    def descs(self):
        return [q.desc() for q in self.mods()]

    def counts(self, st):
        c = {int(onp.asarray(s[1])) for s, q in zip(parts(self.lay, st, self.k), self.mods()) if q.kind == "gate"}
        return 0 if not c else c.pop() if len(c) == 1 else -9

    def data(self, h):
        return probes.like_type(self.scn["tin"], jnp.asarray(h["xs"], jnp.float32)), jnp.float32

    def read(self, h, g, r, n):
        outs = jax.tree.leaves(probes.type_shapes(self.scn["tout"]), is_leaf=is_shape)
        ost = jax.tree.structure(probes.type_shapes(self.scn["tout"]), is_leaf=is_shape)
        if h["w"] == "predict":
            if jax.tree.structure(g) != ost:
                raise RuntimeError("structure of the prediction")
            r["jx"] = whole(flat(g, n))
            return
        per = ost.flatten_up_to(g)
        rows = {}
        if h["w"] == "input":
            ist = jax.tree.structure(self.sh, is_leaf=is_shape)
            ins = jax.tree.leaves(self.sh, is_leaf=is_shape)
            mats = []
            for o, sub in zip(outs, per):
                if jax.tree.structure(sub) != ist:
                    raise RuntimeError("structure of the gradient")
                row = []
                for i, x in zip(ins, jax.tree.leaves(sub)):
                    if x.shape != (n,) + o + i:
                        raise RuntimeError(f"shape of the gradient {x.shape} instead of {(n,) + o + i}")
                    row.append(onp.asarray(x, "f8").reshape(n, onp.prod(o, dtype=int), -1))
                mats.append(onp.concatenate(row, axis=2))
            r["jx"] = whole(onp.concatenate(mats, axis=1))
            return
        mats = [[] for _ in range(self.k)]
        for o, sub in zip(outs, per):
            no = int(onp.prod(o, dtype=int))
            for j, (pg, q) in enumerate(zip(parts(self.lay, sub, self.k), self.mods())):
                p = q.get_params()
                if jax.tree.structure(pg) != jax.tree.structure(p):
                    raise RuntimeError("structure of the gradient by parameters")
                cols = []
                for x, v in zip(jax.tree.leaves(pg), jax.tree.leaves(p)):
                    if x.shape != (n,) + o + v.shape:
                        raise RuntimeError(f"shape of the gradient {x.shape} instead of {(n,) + o + v.shape}")
                    cols.append(onp.asarray(x, "f8").reshape(n, no, -1))
                mats[j].append(onp.concatenate(cols, axis=2) if cols else onp.zeros((n, no, 0)))
        full = [onp.concatenate(a, axis=1) for a in mats]
        r["jp"] = [[whole(f[i]) for f in full] for i in range(n)]

    def dig(self):
        h = [onp.asarray(jax.random.key_data(self.m.get_rng())).tolist(), str(self.m.input_shape), str(self.m.output_shape), self.m.is_ready()]
        return hashlib.sha1(str(h).encode()).hexdigest()[:10]


class Zoo:
    def __init__(self, scn):
        self.scn, self.t = scn, scn["tin"]
        self.m = zb.build(scn["model"], rng=4)
        self.m.compile(9, zb.shapes(self.t))
        self.all = zb.data(self.t, 8, scn["seed"])
        self.seen = []

    def descs(self):
        return []

    def counts(self, st):
        return 0

    def data(self, h):
        ix = onp.asarray(h["ids"]) - 1
        return jax.tree.map(lambda x: jnp.asarray(x[ix], jnp.float64), self.all), jnp.float64

    def read(self, h, g, r, n):
        v = [onp.asarray(x) for x in jax.tree.leaves(g)]
        if any(x.shape[0] != n for x in v):
            raise RuntimeError("number of results")
        for i in range(n):
            a = onp.concatenate([x[i].reshape(-1) for x in v]) if v else onp.zeros(0)
            if not onp.all(onp.isfinite(a)) or onp.abs(a).max(initial=0) > 1e6:
                r["cls"].append(-1); continue
            for k, (w, b) in enumerate(self.seen):
                if w == h["w"] and len(a) == len(b) and onp.all(onp.abs(a - b) <= 1e-3 * (1 + onp.abs(b).max(initial=0))):
                    r["cls"].append(k); break
            else:
                r["cls"].append(len(self.seen)); self.seen.append((h["w"], a))

    def dig(self):
        h = hashlib.sha1()
        for p in jax.tree.leaves((self.m.get_params(), self.m.get_state())):
            h.update(onp.asarray(p).tobytes())
        return h.hexdigest()[:10]


def run(scn):
    b = Exact(scn) if scn["exact"] else Zoo(scn)
    m, ev = b.m, []
    tr = dict(exact=scn["exact"], mods=b.descs(), dig=b.dig(), ev=ev, gates=scn["exact"] and any(q["k"] == "gate" for q in scn["mods"]))
    for h in scn["hist"]:
        if h["op"] in ("grad", "predict"):
            if not scn["exact"] and h["w"] == "params" and (not jax.tree.leaves(m.get_params()) or any(jnp.iscomplexobj(p) for p in jax.tree.leaves(m.get_params()))):
                continue
            if not scn["exact"] and scn["cout"] and h["w"] != "predict" and h["mode"] != "fwd":
                try:            # only forward mode is defined for complex results; the attempt must not disturb it
                    X, dt = b.data(h)
                    {"input": m.grad_input, "params": m.grad_params}[h["w"]](X, dtype=dt, fwd=False, **({"max_batch_size": h["mbs"]} if h["mbs"] else {}))
                except TypeError:
                    pass
                continue
            n = len(h["ids"])
            r = dict(e="grad", w=h["w"], ids=h["ids"], xs=h.get("xs", []), ok=True, msg="", jx=[], jp=[], cls=[], cnt=-1, upd=h["upd"])
            r["msg"] = f"mode {h['mode']} limit {h['mbs']} av {h['av']} n {n}"
            try:
                X, dt = b.data(h)
                kw = dict(dtype=dt, update_state=h["upd"], return_state=h["ret"])
                if h["mbs"]:
                    kw["max_batch_size"] = h["mbs"]
                if h["av"]:
                    kw["avoid_recompilation"] = True
                if h["w"] != "predict" and h["mode"] != "auto":
                    kw["fwd"] = h["mode"] == "fwd"
                g = {"input": m.grad_input, "params": m.grad_params, "predict": m}[h["w"]](X, **kw)
                if h["ret"]:
                    g, ns = g
                    if tr["gates"]:
                        if jax.tree.structure(ns) != jax.tree.structure(m.get_state()) or [x.shape for x in jax.tree.leaves(ns)] != [x.shape for x in jax.tree.leaves(m.get_state())]:
                            raise RuntimeError("the returned state has another structure or shape: " + str([x.shape for x in jax.tree.leaves(ns)]))
                        r["cnt"] = b.counts(ns)
                b.read(h, g, r, n)
            except Exception as ex:
                r["ok"] = False; r["msg"] += f" {type(ex).__name__}: {str(ex)[:300]}"; r["tb"] = traceback.format_exc()[-1500:]
        else:
            r = dict(e="set", ok=True, msg="", want=h.get("mods", b.descs()))
            try:
                if h["op"] == "compile":
                    m.compile(5, b.sh)
                elif h["op"] == "edit":
                    replace(m, b.lay, h["i"], b.module(h["i"], h["mods"][h["i"]]))
                elif not scn["exact"]:
                    m.set_params(jax.tree.map(lambda x: x * 1.25, m.get_params())); b.seen = []
                elif h["op"] == "par":
                    new = [probes.Calc(d).get_params() for d in h["mods"]]
                    old = [q.get_params() for q in b.mods()]
                    look = {id(v): w for o, q in zip(old, new) for v, w in zip(jax.tree.leaves(o), jax.tree.leaves(q))}
                    m.set_params(jax.tree.map(lambda v: look[id(v)], m.get_params()))
                else:
                    look = {id(q.get_state()[0]): jnp.asarray([d["g"]], jnp.float32) for q, d in zip(b.mods(), h["mods"]) if q.kind == "gate"}
                    m.set_state(jax.tree.map(lambda v: look.get(id(v), v), m.get_state()))
            except Exception as ex:
                r["ok"] = False; r["msg"] = f"{h['op']} {type(ex).__name__}: {str(ex)[:300]}"; r["tb"] = traceback.format_exc()[-1500:]
        r["mods"], r["dig"], r["stored"] = b.descs(), b.dig(), b.counts(m.get_state())
        ev.append(r)
        if not r["ok"]:
            break
    return {"trace": tr}
