"""Replays edit histories (C07) on real sequential models."""
import jax, jax.numpy as jnp, numpy as onp
import parametricmatrixmodels as pmm
from probes import Trail

KEYS = [f"k{i:03d}" for i in range(100)]


class Obj:
    """A real model plus, for models that keep their modules in a dictionary, the keys in order."""
    def __init__(self, kind, items, seed, rev=False):
        self.kind = kind
        self.rev = rev
        self.keys = [1000 * (i + 1) for i in range(len(items))]
        name = self.kn
        c = {"list": list, "tuple": tuple, "dict": lambda q: {name(k): m for k, m in zip(self.keys, q)}}[kind](items)
        self.m = pmm.SequentialModel(c, rng=seed)

    def kn(self, k):
        return f"key{9999999 - k if self.rev else k:07d}"

    def insert(self, i, mod, how):
        n = len(self.keys)
        lo = self.keys[i - 1] if i > 0 else 0
        hi = self.keys[i] if i < n else lo + 2000
        k = (lo + hi) // 2
        kw = {"key": self.kn(k)} if self.kind == "dict" else {}
        if i == n and how % 3 == 0:
            (self.m.append_module if how % 2 else self.m.append)(mod, **kw)
        elif i == n and how % 3 == 1 and self.kind == "dict":
            self.m[self.kn(k)] = mod
        elif i == 0 and how % 3 == 0:
            (self.m.prepend_module if how % 2 else self.m.prepend)(mod, **kw)
        else:
            j = i - n if (how % 5 == 4 and i < n) else i        # the same place from the end
            (self.m.insert_module if how % 2 else self.m.insert)(j, mod, **kw)
        self.keys.insert(i, k)

    def replace(self, i, mod, how):
        n = len(self.keys)
        if self.kind == "dict":
            if how % 2:
                self.m[self.kn(self.keys[i - 1])] = mod
            else:
                self.m[(self.kn(self.keys[i - 1]),)] = mod
        elif how % 3 == 0:
            self.m[i - 1 - n] = mod
        elif how % 3 == 1 and self.kind == "list":
            self.m[(i - 1,)] = mod
        elif how % 3 == 2 and self.kind == "list":
            self.m[i - 1:i] = [mod]
        else:
            self.m[i - 1] = mod

    def pop(self, i, how):
        n = len(self.keys)
        k = self.keys.pop(i - 1)
        j = i - 1 - n if how % 3 == 0 else i - 1
        if self.kind == "dict" and how % 2:
            return self.m.pop(self.kn(k))
        if how % 2:
            return self.m.pop(j)
        return self.m.pop_module_by_index(j)


def run(scn):
    ev = []
    L = {}

    def leaf(j):
        if j not in L:
            L[j] = Trail(float(scn["v"][j - 1]))
        return L[j]

    objs = {}

    def flat(m):
        out = []
        for q in jax.tree.leaves(m.modules):
            out += flat(q) if isinstance(q, pmm.Model) else [q]
        return out

    def number(q):
        for j, x in L.items():
            if x is q:
                return j
        return 0

    def observe(o, mbs):
        m = objs[o].m
        r = dict(e="obs", o=o, ready=bool(m.is_ready()), ok=True, msg="", out=[], width=-1,
                 params=[int(round(float(x.reshape(-1)[0]))) for x in jax.tree.leaves(m.get_params())])
        n = m.input_shape[0] if m.input_shape else 1
        X = jnp.asarray([[100.0 * i + j for j in range(1, n + 1)] for i in (1, 2, 3)], jnp.float32)
        try:
            out = m(X, max_batch_size=mbs)
            r["out"] = [[int(round(float(q))) for q in row] for row in onp.asarray(out)]
            r["width"] = int(m.get_output_shape((n,))[0])
        except Exception as ex:
            r["ok"] = False
            r["msg"] = f"{type(ex).__name__}: {str(ex)[:150]}"
        ev.append(r)

    try:
        if 0 in scn["s1"]:
            objs[2] = Obj(scn["kind2"], [leaf(j) for j in scn["s2"]], 7)
        objs[1] = Obj(scn["kind"], [leaf(j) if j else objs[2].m for j in scn["s1"]], 5, scn.get("rev", False))
        for o in scn["ops"]:
            k, how = o["op"], o.get("how", 0)
            e = dict(e="op", op={a: b for a, b in o.items() if a not in ("how", "obs", "mbs")})
            if k == "insert":
                objs[o["o"]].insert(o["i"], leaf(o["x"]), how)
            elif k == "replace":
                objs[o["o"]].replace(o["i"], leaf(o["x"]), how)
            elif k == "pop":
                e["got"] = number(objs[o["o"]].pop(o["i"], how))
            elif k == "all":
                ob = objs[o["o"]]
                objs[o["o"]].keys = [1000 * (i + 1) for i in range(len(o["s"]))]
                its = [leaf(j) for j in o["s"]]
                ob.m[None] = {"list": its, "tuple": tuple(its), "dict": {ob.kn(q): m for q, m in zip(ob.keys, its)}}[ob.kind]
            elif k == "compile":
                objs[o["o"]].m.compile(3, (o["n"],))
            elif k == "set":
                m = objs[o["o"]].m
                own = {id(q.par): j for j, q in L.items()}
                p, st = jax.tree.flatten(m.get_params())
                m.set_params(jax.tree.unflatten(st, [jnp.asarray([float(o["v"][own[id(q)] - 1])], jnp.float32) for q in p]))
            elif k == "add":
                ob = Obj.__new__(Obj)
                ob.kind, ob.keys, ob.rev = objs[1].kind, list(objs[1].keys), objs[1].rev
                ob.m = objs[1].m + leaf(o["x"])
                ob.keys.append((ob.keys[-1] if ob.keys else 0) + 500)
                objs[3] = ob
            ev.append(e)
            for q in sorted(objs):
                if q in o.get("obs", [1, 2, 3]) and (q != 3 or k != "x"):
                    observe(q, o.get("mbs"))
    except Exception as ex:
        import traceback
        ev.append(dict(e="exc", msg=f"{type(ex).__name__}: {str(ex)[:200]}", tb=traceback.format_exc()[-900:]))
    return {"trace": dict(s1=scn["s1"], s2=scn["s2"], v=scn["v"], ev=ev)}
