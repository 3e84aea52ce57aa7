"""Trains models whose gradients are known integers and records every epoch's parameters (C23)."""
import os, tempfile, warnings
import jax, jax.numpy as jnp, numpy as onp
import parametricmatrixmodels as pmm
import probes

warnings.simplefilter("ignore")
U = 4096


def units(leaves):
    out = []
    for a in leaves:
        a = onp.asarray(a).reshape(-1)
        if not onp.all(onp.isfinite(a)):
            raise RuntimeError("parameters are not finite")
        out.append([[int(round(float(z.real) * U)), int(round(float(z.imag) * U))] for z in a])
    return out


def build(scn):
    mods = []
    for m in scn["mods"]:
        mods.append(probes.Store([onp.asarray(a["x"]).reshape(a["s"]) if not a["c"] else onp.asarray([complex(*z) for z in a["x"]]).reshape(a["s"]) for a in m], [a["c"] for a in m]))
    k = scn["kind"]
    if k == "list":
        return pmm.SequentialModel(mods, rng=3), mods
    if k == "tuple":
        return pmm.SequentialModel(tuple(mods), rng=3), mods
    if k == "dict":
        return pmm.SequentialModel({f"m{i}": m for i, m in enumerate(mods)}, rng=3), mods
    if k == "nested":
        return pmm.SequentialModel([mods[0], pmm.SequentialModel(mods[1:])] if len(mods) > 1 else [pmm.SequentialModel(mods)], rng=3), mods
    con = {"input": "m0"}
    for i in range(len(mods)):
        con[f"m{i}"] = f"m{i+1}" if i + 1 < len(mods) else "output"
    return pmm.NonSequentialModel({f"m{i}": m for i, m in enumerate(mods)}, con, rng=3), mods


def flat_modules(m):
    out = []
    for x in jax.tree.leaves(m.modules):
        out += flat_modules(x) if isinstance(x, pmm.Model) else [x]
    return out


def run(scn):
    m, mods = build(scn)
    w = 2
    m.compile(1, (w,))
    ev = []
    try:
        for r in scn["runs"]:
            if r.get("reload"):
                fd, fn = tempfile.mkstemp(suffix=".npz"); os.close(fd)
                m.save(fn); m = type(m).from_file(fn); os.unlink(fn)
            mods = flat_modules(m)
            if r.get("set") is not None:
                ls, td = jax.tree.flatten(m.get_params())
                new = [jnp.asarray(onp.asarray([complex(*z) if onp.iscomplexobj(a) else z[0] for z in v]).reshape(a.shape), a.dtype) for a, v in zip(ls, r["set"])]
                m.set_params(jax.tree.unflatten(td, new))
                ev.append(dict(e="set", x=units(jax.tree.leaves(m.get_params()))))
            for x, on in zip(mods, r["mods_on"]):
                x.trainable = on
            G = onp.asarray(r["G"], dtype=object)
            rows = []
            for ep in r["G"]:
                rows.append([0.0] * w + [float(c) for arr in ep for z in arr for c in z])
            tab = jnp.asarray(onp.asarray(rows, "f4"))
            lrs = jnp.asarray(onp.asarray(r["lr"], "f4") / 16)
            seen = []
            x0 = units(jax.tree.leaves(m.get_params()))

            def cb(rng, epoch, params):
                jax.debug.callback(lambda e, p: seen.append((int(e), [onp.asarray(q) for q in p])), epoch, jax.tree.leaves(params))
                return rng, jax.tree.map(lambda q: q + jnp.asarray(r["add"], jnp.float32)[epoch].astype(q.dtype), params)
            n = r["n"]
            X = jnp.asarray(onp.ones((n, w), "f4"))
            loss = lambda ep, x, p: jnp.mean(jnp.sum(p * tab[ep][None], axis=1))
            vloss = lambda ep, x, p: -p[0, 0]
            kw = dict(loss_fn=loss, val_loss_fn=vloss, lr=(lambda i: lrs[i]) if r["sched"] else r["lr"][0] / 16, b1=r["o"]["b1"] / 4, b2=r["o"]["b2"] / 4,
                      eps=r["o"]["eps"] / 16, clip=float(r["o"]["clip"]), epochs=len(r["G"]), batch_size=r["bs"], target_loss=-float("inf"),
                      resume=r["resume"], verbose=bool(r.get("verbose")), batch_rng=5, callback=cb)
            if r.get("fwd"):
                kw["fwd"] = True
            if r.get("unroll"):
                kw["unroll"] = 2
            on = [o for mm, o in zip(scn["mods"], r["mods_on"]) for _ in mm]
            ev.append(dict(e="run", resume=r["resume"], on=on, o=r["o"], lr=r["lr"], K=-(-n // min(n, r["bs"])), G=r["G"], x=x0))
            m.train(X, **kw)
            jax.effects_barrier()
            if len(seen) != len(r["G"]):
                raise RuntimeError(f"{len(seen)} epochs instead of {len(r['G'])}")
            seen.sort(key=lambda t: t[0])
            for k, (e, p) in enumerate(seen):
                ev.append(dict(e="epoch", k=k + 1, x=units(p), add=r["add"][k]))
            ev.append(dict(e="end", x=units(jax.tree.leaves(m.get_params()))))
    except Exception as ex:
        ev.append(dict(e="exc", msg=f"{type(ex).__name__}: {str(ex)[:300]}"))
    return {"trace": dict(sizes=[len(a["x"]) for mm in scn["mods"] for a in mm], ev=ev)}
