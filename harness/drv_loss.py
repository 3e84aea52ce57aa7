"""Runs short trainings that reveal the loss in use and its derivative (C21)."""
import traceback, warnings
import jax, jax.numpy as jnp, numpy as onp
import parametricmatrixmodels as pmm
import probes

warnings.simplefilter("ignore")
Q = 4096
BIG = 2.0 ** 20


def own(name, h):
    """the same loss, as a function a user would write"""
    base = name.split("_")[0]

    def term(p, y, u):
        if base == "mse":
            return jnp.abs(p - y) ** 2 / u ** 2
        if base == "mae":
            return jnp.abs(p - y) / u
        if base == "mre":
            return jnp.abs((p - y) / (y + 1e-4)) / u
        if base == "mrd":
            return jnp.abs((p - y) / (2 * (y + p) + 1e-4)) / u
        d = h / 2
        return d * d * (jnp.sqrt(1 + jnp.abs((p - y) / d) ** 2) - 1)

    def total(y, u, p):
        y, p = jax.tree.leaves(y), jax.tree.leaves(p)
        u = jax.tree.leaves(u) if u is not None else [1.0] * len(y)
        ts = [term(a, b, c) for a, b, c in zip(p, y, u)]
        return sum(jnp.sum(t) for t in ts) / sum(t.size for t in ts)
    if name.endswith("_unsupervised"):
        return lambda epoch, x, p: total(x, None, p)
    if name.endswith("_unc"):
        return lambda epoch, x, y, u, p: total(y, u, p)
    return lambda epoch, x, y, p: total(y, None, p)


def named(name, h):
    return name if name != "pseudo_huber" or h == 2 else f"pseudo_huber:{h / 2}"


def table(t, rows, cplx):
    a = onp.asarray(rows, "f4")
    a = (a[..., 0] + 1j * a[..., 1]).astype("c8") if cplx else a[..., 0]
    return probes.like_type(t, jnp.asarray(a))


def run(scn):
    n, nv, tin, tout = scn["n"], scn["nv"], scn["tin"], scn["tout"]
    N = n + nv
    r = onp.random.RandomState(scn["seed"])
    w = scn["w"]
    if scn["uns"]:
        X = table(tin, scn["Y"], False)
    else:
        a = r.randint(-5, 6, (N, w)).astype("f4"); a[:, 0] = onp.arange(1, N + 1)
        X = probes.like_type(tin, jnp.asarray(a))
    Y = None if scn["uns"] else table(tout, scn["Y"], scn["cplx"])
    U = probes.like_type(tout, jnp.asarray(onp.asarray(scn["U"], "f4"))) if scn["unc"] else None
    rows = [[[0, 0]] * len(scn["P"][0])] + scn["P"]
    flat = [[complex(*c) if scn["cplx"] else float(c[0]) for c in row] for row in rows]
    cut = lambda t, a, b: None if t is None else jax.tree.map(lambda x: x[a:b], t)
    tl, vl, h = scn["train"]["loss"], scn["val"]["loss"], scn["train"]["h"]
    loss = own(tl, h) if "t" in scn["custom"] else named(tl, h)
    vloss = None if scn["same"] and "v" not in scn["custom"] else own(vl, h) if "v" in scn["custom"] else named(vl, h)

    def train(target, epochs, lr, eps):
        m = pmm.SequentialModel([probes.Table(flat, tout, scn["cplx"])], rng=1)
        m.compile(2, probes.type_shapes(tin))
        seen = []

        def cb(rng, epoch, params):
            jax.debug.callback(lambda e, p: seen.append(jax.tree.map(onp.asarray, p)), epoch, params)
            return rng, params
        kw = dict(loss_fn=loss, val_loss_fn=vloss, lr=lr, eps=eps, b1=0.0, b2=0.0, epochs=epochs, verbose=False, batch_size=scn["train"]["b"],
                  val_batch_size=scn["val"]["v"], batch_rng=scn["seed"], callback=cb)
        if scn["unroll"]:
            kw["unroll"] = 2
        if nv:
            kw.update(X_val=cut(X, n, N), Y_val=cut(Y, n, N), Y_val_unc=cut(U, n, N))
        if target is not None:
            kw["target_loss"] = target
        if Y is None:
            m.train(cut(X, 0, n), **kw)
        else:
            m.train(cut(X, 0, n), cut(Y, 0, n), Y_unc=cut(U, 0, n), **kw)
        jax.effects_barrier()
        return seen

    ev = []
    for t in scn["targets"]:
        e = dict(e="stop", target=t, ok=True, msg=f"{vl} {'function' if 'v' in scn['custom'] else ''}", epochs=0)
        try:
            e["epochs"] = len(train(t / Q, 2, 0.0, BIG))
        except Exception as ex:
            e["ok"] = False; e["msg"] += f" {type(ex).__name__}: {str(ex)[:300]}"; e["tb"] = traceback.format_exc()[-1500:]
        ev.append(e)
    if not scn["cplx"] and not tl.startswith("mrd"):
        e = dict(e="step", ok=True, msg=f"{tl} {'function' if 't' in scn['custom'] else ''}", g=[])
        try:
            ps, = train(None, 1, BIG, BIG)
            p1 = onp.concatenate([onp.asarray(x, "f8").reshape(N + 1, -1) for x in jax.tree.leaves(ps)], axis=1)
            p0 = onp.asarray(flat, "f8")
            d = p0 - p1
            if not onp.all(onp.isfinite(d)):
                raise RuntimeError("parameters are not finite")
            if onp.any(d[n + 1:]) or onp.any(d[0]):
                raise RuntimeError("predictions of samples that were not trained on changed")
            e["g"] = [[int(round(v * Q)) for v in row] for row in d[1:n + 1]]
        except Exception as ex:
            e["ok"] = False; e["msg"] += f" {type(ex).__name__}: {str(ex)[:300]}"; e["tb"] = traceback.format_exc()[-1500:]
        ev.append(e)
    return {"trace": dict(val=scn["val"], train=scn["train"], ev=ev)}
