"""Runs histories of operations on real model objects (C06, C17); records what each object shows."""
import hashlib, os, pathlib, tempfile, traceback
import jax, jax.numpy as jnp, numpy as onp
import parametricmatrixmodels as pmm
import zoo_build as zb


class Classes:
    def __init__(self):
        self.d = {}

    def of(self, text):
        return self.d.setdefault(hashlib.sha256(text).hexdigest(), len(self.d) + 1)

    def __call__(self, tree):
        return self.of(canon(tree))


def canon(tree):
    """bytes that are equal iff the trees are: structure, dtypes, shapes, bits (all NaN alike)"""
    out = []

    def go(x):
        if x is None:
            out.append(b"N")
        elif isinstance(x, dict):
            out.append(b"{")
            for k in sorted(x, key=str):
                out.append(repr(k).encode()); go(x[k])
            out.append(b"}")
        elif isinstance(x, (list, tuple)) and not hasattr(x, "dtype"):
            out.append(b"[" if isinstance(x, list) else b"(")
            for y in x:
                go(y)
            out.append(b"]")
        elif isinstance(x, (str, bool, int, float, complex)):
            out.append(repr(x).encode())
        else:
            if hasattr(x, "dtype") and jnp.issubdtype(x.dtype, jax.dtypes.prng_key):
                x = jax.random.key_data(x)
            a = onp.asarray(x)
            if a.dtype.kind in "fc":
                a = onp.where(onp.isnan(a), onp.asarray(onp.nan, a.dtype), a) + 0
            out.append(f"<{a.dtype}{a.shape}".encode() + a.tobytes())
    go(tree)
    return b"".join(out)


def leaf_modules(m):
    if isinstance(m, pmm.Model):
        return [q for x in jax.tree.leaves(m.modules) for q in leaf_modules(x)]
    return [m]


def skeleton(m):
    """classes and names of the modules, container types included"""
    if isinstance(m, pmm.Model):
        return [type(m).__name__, m.name, jax.tree.map(skeleton, m.modules), str(jax.tree.structure(m.modules))]
    return [type(m).__name__, m.name]


def opt_tree(m):
    o = getattr(m, "_optimizer_state", None)
    return jax.tree.leaves(o)


def loss(ep, x, y, pred):
    return sum(jnp.mean(jnp.abs(p - t) ** 2) for p, t in zip(jax.tree.leaves(pred), jax.tree.leaves(y)))


class Box:
    """what is common to the objects of one scenario"""
    def __init__(self, scn):
        self.scn = scn
        self.tin = scn["tin"]
        self.x64 = bool(scn.get("x64"))
        self.dt = zb.in_dtype(self.tin, self.x64)
        self.X = zb.data(self.tin, 3, scn["dseed"])

    def build(self, k):
        return zb.build(self.scn["model"], rng=int(k))

    def out(self, m):
        return m(self.X, dtype=self.dt)

    def train(self, m, a, resume):
        n = 4
        X = zb.data(self.tin, n, self.scn["dseed"] + 7 + int(a))
        y0 = m(X, dtype=self.dt)
        Y = jax.tree.map(lambda p: (jnp.arange(p.size).reshape(p.shape) % 5).astype(p.dtype) / 4, y0)
        m.train(X, Y, loss_fn=loss, batch_size=2, epochs=2, lr=0.05, resume=resume, batch_rng=11 + int(a), verbose=False)


def do(box, m, op, a):
    """performs an operation; False if it may be refused (nothing to train) and was"""
    if op == "compile":
        m.compile(int(a), zb.shapes(box.tin))
    elif op in ("train", "resume"):
        box.train(m, a, op == "resume")
    elif op == "mark":
        i, v = int(a[:-1]), a[-1] == "t"
        tgt = m if i == 0 else jax.tree.leaves(m.modules)[(i - 1) % len(jax.tree.leaves(m.modules))]
        if box.scn["dseed"] % 2:
            tgt.trainable = v
        elif v:
            tgt.unfreeze()
        else:
            tgt.freeze()
    elif op == "assign":
        m.set_params(jax.tree.map(lambda p: p * (1 + int(a)) / 2, m.get_params()))
    elif op == "cast":
        m.set_precision(int(a) if box.scn["dseed"] % 2 else ("float" + a))
    elif op == "key":
        m.set_rng(int(a))
    elif op == "feed":
        m(zb.data(box.tin, 2, 100 + int(a)), dtype=box.dt, update_state=True)
    elif op == "peek":
        m(zb.data(box.tin, 5, 3), dtype=box.dt, max_batch_size=2)
        m(box.X, dtype=box.dt, return_state=True, rng=3)


def hand_over(box, m, how, old):
    """-> an object that should be the same as m"""
    if how == "copy":
        return m.copy()
    if how == "dict":
        q = type(m)(); q.deserialize(m.serialize()); return q
    d = tempfile.mkdtemp()
    fn = os.path.join(d, "a.model")
    try:
        if how == "file":
            m.save(fn + ".npz"); return type(m).from_file(fn + ".npz")
        if how == "nosuffix":
            m.save(fn); return type(m).from_file(fn)
        if how == "path":
            m.save_compressed(pathlib.Path(fn)); return type(m).from_file(pathlib.Path(fn))
        if how == "zip":
            m.save_compressed(fn); return type(m).from_file(fn)
        if how == "io":
            with open(fn, "wb") as f:
                m.save(f)
            with open(fn, "rb") as f:
                return type(m).from_file(f)
        if how == "twice":
            m.save(fn); q = type(m).from_file(fn); q.save_compressed(fn); return type(m).from_file(fn)
        if how == "into":           # into an object that already holds something
            m.save(fn); old.load(fn); return old
    finally:
        for f in os.listdir(d):
            os.unlink(os.path.join(d, f))
        os.rmdir(d)
    raise ValueError(how)


def run(scn):
    cls = Classes()
    box = Box(scn)
    ev = []
    slots = {}

    def obs(s, out):
        m = slots[s]
        see = lambda f, c: ev.append(dict(e="obs", s=s, f=f, c=c))
        see("par", cls(m.get_params())); see("st", cls(m.get_state())); see("key", cls(m.get_rng()))
        see("marks", cls([bool(q.trainable) for q in leaf_modules(m)] + [bool(m.trainable)] +
                         [bool(q.trainable) for q in jax.tree.leaves(m.modules)]))
        see("opt", cls(opt_tree(m)))
        see("shape", cls([m.is_ready(), m.input_shape, m.output_shape]))
        see("kind", cls(skeleton(m)))
        if out and m.is_ready():
            y = box.out(m)
            see("out", cls(y))
            if scn.get("taps"):
                n = scn["taps"]
                row = onp.asarray(y)[0, 2:].reshape(n, 4)
                ev.append(dict(e="must", what="two modules evaluate with the same random key",
                               ok=len({r.tobytes() for r in row}) == n))

    for n, h in enumerate(scn["hist"]):
        op, s, a = h["op"], h["s"], h["a"]
        r = dict(e="op", op=op, s=s, a=a, ok=True, may=False, msg="")
        touched = {s}
        try:
            if op == "new":
                slots[s] = box.build(a)
            elif op == "noise":                 # other models come and go
                r["op"] = "read"
                import random
                random.random(); onp.random.rand(3)
                q = zb.build(scn["other"]); q.compile(5, zb.shapes(scn["otin"]))
                q(zb.data(scn["otin"], 2, 1), dtype=zb.in_dtype(scn["otin"], box.x64))
            elif op == "pass":
                r["t"] = h["t"]
                old = slots.get(h["t"])
                if h["how"] == "into" and (old is None or old is slots[s]):
                    old = zb.build(scn["other"], rng=3) if type(zb.build(scn["other"])) is type(slots[s]) else type(slots[s])()
                slots[h["t"]] = hand_over(box, slots[s], h["how"], old)
                touched = {s, h["t"]}
                if slots[h["t"]] is slots[s]:
                    ev.append(dict(e="must", what="a copy is the very same object", ok=False))
            else:
                if op in ("train", "resume"):
                    r["may"] = not any(q.trainable and jax.tree.leaves(q.get_params()) for q in leaf_modules(slots[s]))
                do(box, slots[s], op, a)
        except Exception as ex:
            r["ok"] = False
            r["msg"] = f"{h.get('how', '')} {type(ex).__name__}: {str(ex)[:300]}"
            r["tb"] = traceback.format_exc()[-1500:]
        ev.append(r)
        if not r["ok"] and not r["may"]:
            break
        last = n == len(scn["hist"]) - 1
        try:
            for q in sorted(slots):
                obs(q, last or (q in touched and op in ("pass", "train", "resume", "assign", "cast", "feed", "peek", "compile")))
            if op == "compile":
                arrs = [onp.asarray(p) for q in leaf_modules(slots[s]) for p in jax.tree.leaves(q.get_params())]
                rnd = [x for x in arrs if x.size >= 2 and (scn.get("taps") or not onp.all(x * 4 == onp.round(x * 4)))]
                dup = len(rnd) != len({x.tobytes() for x in rnd})
                ev.append(dict(e="must", what="two modules were given the same random numbers", ok=not dup))
        except Exception as ex:
            ev.append(dict(e="exc", msg=f"observing after {op}: {type(ex).__name__}: {str(ex)[:300]}",
                           tb=traceback.format_exc()[-1500:]))
            break
    return {"trace": dict(slots=3, rand=bool(scn.get("rand")), ev=ev)}
