"""Runs a life history (C04, C05) on a real model built of K chain nodes; records events."""
import hashlib, os, tempfile
import jax, jax.numpy as jnp, numpy as onp
import parametricmatrixmodels as pmm
from parametricmatrixmodels.modules import Bias
from probes import Node

N = 4          # samples


def make_leaf(kind, v, s):
    return Bias(bias=float(v), scalar=True) if kind == "b" else Node(kind, float(v), float(s))


def chain(names):
    c, prev = {}, "input"
    for n in names:
        c[prev] = n
        prev = n
    c[prev] = "output"
    return c


def build(struct, leaves, seed):
    """-> model, leaf accessors, sub-model list [(accessor, set of leaf numbers)]"""
    S = pmm.SequentialModel
    k = len(leaves)
    root = (lambda m: m, list(range(1, k + 1)))
    if struct == "list":
        return S(list(leaves), rng=seed), [lambda m, i=i: m[i] for i in range(k)], [root]
    if struct == "tuple":
        return S(tuple(leaves), rng=seed), [lambda m, i=i: m.modules[i] for i in range(k)], [root]
    if struct == "dict":
        return (S({f"k{i}": q for i, q in enumerate(leaves)}, rng=seed),
                [lambda m, i=i: m[f"k{i}"] for i in range(k)], [root])
    if struct == "lol":
        mods = [[leaves[0]], list(leaves[1:])]
        return (S(mods, rng=seed),
                [lambda m: m.modules[0][0]] + [lambda m, i=i: m.modules[1][i] for i in range(k - 1)], [root])
    if struct == "nest":       # last two in an inner model
        inner = S(list(leaves[-2:]))
        return (S(list(leaves[:-2]) + [inner], rng=seed),
                [lambda m, i=i: m[i] for i in range(k - 2)] +
                [lambda m, i=i: m.modules[-1].modules[i] for i in range(2)],
                [root, (lambda m: m.modules[-1], [k - 1, k])])
    if struct == "deep":       # ((l1) ... lk-1) lk
        inner2 = S([leaves[0]])
        inner1 = S([inner2] + list(leaves[1:-1]))
        return (S([inner1, leaves[-1]], rng=seed),
                [lambda m: m.modules[0].modules[0].modules[0]] +
                [lambda m, i=i: m.modules[0].modules[i] for i in range(1, k - 1)] + [lambda m: m.modules[1]],
                [root, (lambda m: m.modules[0], list(range(1, k))), (lambda m: m.modules[0].modules[0], [1])])
    if struct == "nonseq":
        names = [f"m{i}" for i in range(k)]
        return (pmm.NonSequentialModel(dict(zip(names, leaves)), chain(names), rng=seed),
                [lambda m, n=n: m.modules[n] for n in names], [root])
    if struct == "nsgroup":
        names = ["m0"] + [f"g.m{i}" for i in range(1, k)]
        mods = {"m0": leaves[0], "g": {f"m{i}": leaves[i] for i in range(1, k)}}
        return (pmm.NonSequentialModel(mods, chain(names), rng=seed),
                [lambda m: m.modules["m0"]] + [lambda m, i=i: m.modules["g"][f"m{i}"] for i in range(1, k)], [root])
    if struct == "nsnest":     # first leaf, then a sequential model of the rest
        mods = {"m0": leaves[0], "s": S(list(leaves[1:]))}
        return (pmm.NonSequentialModel(mods, chain(["m0", "s"]), rng=seed),
                [lambda m: m.modules["m0"]] + [lambda m, i=i: m.modules["s"].modules[i] for i in range(k - 1)],
                [root, (lambda m: m.modules["s"], list(range(2, k + 1)))])
    if struct == "seqns":      # sequential model holding a graph model
        names = [f"m{i}" for i in range(k - 1)]
        ns = pmm.NonSequentialModel(dict(zip(names, leaves[:-1])), chain(names))
        return (S([ns, leaves[-1]], rng=seed),
                [lambda m, n=n: m.modules[0].modules[n] for n in names] + [lambda m: m.modules[1]],
                [root, (lambda m: m.modules[0], list(range(1, k)))])
    raise ValueError(struct)


def as_int(tree):
    vals = [onp.asarray(q).reshape(-1) for q in jax.tree.leaves(tree)]
    if not vals:
        return 0
    v = onp.concatenate([onp.real(x).astype(float) for x in vals])
    im = onp.concatenate([onp.imag(x).astype(float) for x in vals])
    if not onp.all(onp.isfinite(v)) or onp.any(v != v[0]) or onp.any(im != 0) or v[0] != round(v[0]):
        return -999999
    return int(v[0])


class Classes:
    def __init__(self):
        self.d = {}

    def __call__(self, tree):
        h = hashlib.sha256()
        for leaf in jax.tree.leaves(tree):
            if hasattr(leaf, "dtype") and jnp.issubdtype(leaf.dtype, jax.dtypes.prng_key):
                leaf = jax.random.key_data(leaf)
            a = onp.asarray(leaf)
            h.update(str(a.dtype).encode() + str(a.shape).encode() + a.tobytes())
        return self.d.setdefault(h.hexdigest(), len(self.d) + 1)


def train(m, op, scn, stp0):
    nb, best = op["nb"], op["best"]
    X = jnp.asarray([[i, 0.0, 0.0] for i in range(N)], jnp.float32)
    L = jnp.asarray([abs(j - best) for j in range(op["E"] + 1)] + [99.0], jnp.float32)
    exact = scn["mode"] == "int"
    G = jnp.asarray([1.0, 2.0, 4.0])

    def loss(ep, x, y, pred):
        g = 1.0 if exact else jax.lax.stop_gradient(G[jnp.mod(pred[0, 1], 3).astype(jnp.int32)])
        return -jnp.mean(pred[:, 0]) * g

    def vloss(ep, x, y, pred):
        j = jnp.round((pred[0, 1] - stp0) / nb).astype(jnp.int32)
        return L[jnp.clip(j, 0, L.shape[0] - 1)]

    kw = dict(b1=0.0, b2=0.0, eps=0.0, lr=(lambda i: i + 1.0) if scn["sched"] else 1.0) if exact else \
        dict(b1=0.9, b2=0.99, eps=1.0, lr=(lambda i: 0.5 / (i + 1.0)) if scn["sched"] else 0.25)
    m.train(X, X, loss_fn=loss, val_loss_fn=vloss, batch_size=N // nb, epochs=op["E"], resume=op["resume"],
            batch_rng=scn["bseed"] + op.get("bs", 0), initialization_seed=scn["mseed"],
            verbose=False, fwd=scn.get("fwd", False), **kw)


def run(scn):
    cls = Classes()
    ev = []
    kinds = scn["kinds"]
    K = len(kinds)

    def fresh():
        lv = [make_leaf(kd, scn["v0"][i], scn["s0"]) for i, kd in enumerate(kinds)]
        for q, f in zip(lv, scn["f0"]):
            if not f:
                q.trainable = False
        return build(scn["struct"], lv, scn["mseed"])

    def leaf_states(m, acc):
        return [-1 if kinds[i] == "b" else as_int(acc[i](m).get_state()) for i in range(K)]

    def observe(m, acc, subs):
        ev.append(dict(e="read", leaf=[bool(acc[i](m).trainable) for i in range(K)],
                       subs=[dict(ls=ls, v=bool(a(m).trainable)) for a, ls in subs]))
        if scn["mode"] == "int":
            ev.append(dict(e="obs", p=[as_int(acc[i](m).get_params()) for i in range(K)], s=leaf_states(m, acc)))
        else:
            ev.append(dict(e="cls", pc=[cls(acc[i](m).get_params()) for i in range(K)], s=leaf_states(m, acc),
                           kc=cls(m.get_rng())))

    for bi, ops in enumerate(scn["branches"]):
        if bi:
            ev.append(dict(e="branch"))
        try:
            m, acc, subs = fresh()
            if scn["compile"] == "first":
                m.compile(scn["mseed"], (3,))
            stp = scn["s0"]
            for op in ops:
                o = op["op"]
                if o == "flag":
                    ls, v = sorted(op["ls"]), op["v"]
                    tgt = [a for a, s in subs if sorted(s) == ls]
                    how = op.get("how", 0)
                    objs = [tgt[0](m)] if tgt and how < 3 else [acc[j - 1](m) for j in ls]
                    for q in objs:
                        if how % 2 == 0:
                            q.trainable = v
                        elif v:
                            q.unfreeze()
                        else:
                            q.freeze()
                    ev.append(dict(e="flag", ls=ls, v=v))
                elif o == "train":
                    r = dict(e="train", resume=op["resume"], nb=op["nb"], best=op["best"], ok=True, msg="")
                    last = acc[K - 1](m)
                    try:
                        train(m, op, scn, as_int(last.get_state()))
                    except Exception as ex:
                        r["ok"] = False; r["msg"] = f"{type(ex).__name__}: {str(ex)[:200]}"
                    ev.append(r)
                elif o == "set":
                    if not m.is_ready():
                        m.compile(scn["mseed"], (3,))
                    leaves, st = jax.tree.flatten(m.get_params())
                    own = {id(q): i for i in range(K) for q in jax.tree.leaves(acc[i](m).get_params())}
                    m.set_params(jax.tree.unflatten(st, [jnp.full_like(q, op["v"][own[id(q)]]) for q in leaves]))
                    ev.append(dict(e="set", v=op["v"]))
                elif o == "reload":
                    how = op.get("how", 0) % 3
                    if how == 2:
                        m = m.copy()
                    else:
                        fd, fn = tempfile.mkstemp(suffix=".npz"); os.close(fd)
                        try:
                            (m.save if how == 0 else m.save_compressed)(fn)
                            m = type(m).from_file(fn)
                        finally:
                            os.unlink(fn)
                    ev.append(dict(e="reload"))
                elif o == "clone":
                    if not m.is_ready():
                        m.compile(scn["mseed"], (3,))
                    flags = [acc[i](m).trainable for i in range(K)]
                    m2, acc, subs = fresh()
                    m2.compile(scn["mseed"] + 1, (3,))
                    m2.set_params(m.get_params()); m2.set_state(m.get_state()); m2.set_rng(m.get_rng())
                    for i in range(K):
                        acc[i](m2).trainable = flags[i]
                    m = m2
                    ev.append(dict(e="clone"))
                if m.is_ready():
                    observe(m, acc, subs)
        except Exception as ex:
            import traceback
            ev.append(dict(e="exc", msg=f"{type(ex).__name__}: {str(ex)[:200]}", tb=traceback.format_exc()[-800:]))
            break
    return {"trace": dict(K=K, sched=bool(scn["sched"]), hasp=[k != "n" for k in kinds], v0=scn["v0"], f0=scn["f0"],
                          s0=scn["s0"], ev=ev)}
