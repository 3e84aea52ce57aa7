"""Runs scripted training runs on the probe model and records what happened."""
import jax, jax.numpy as jnp, numpy as onp, json, os, signal, threading, time
import parametricmatrixmodels as pmm
from probes import Probe

XOFF, YOFF, UOFF, VOFF = 0, 100, 200, 1000


def tree_of(kind, ids, off):
    """Data of a given structure in which every leaf carries the sample id."""
    v = jnp.asarray([i + off for i in ids], dtype=jnp.float32)
    a = v[:, None]
    if kind == "bare":
        return a
    if kind == "dict":
        return {"b": jnp.stack([v, v * 0 + 7], axis=1), "a": a}
    if kind == "tuple":
        return (a, [jnp.stack([v, v], axis=1)[:, :, None], a])
    if kind == "mat":
        return jnp.broadcast_to(v[:, None, None], (len(ids), 2, 2))
    raise ValueError(kind)


def ids_of(tree, off):
    """Sample ids carried by each leaf (list of lists)."""
    out = []
    for leaf in jax.tree.leaves(tree):
        leaf = onp.asarray(leaf)
        col = leaf.reshape(leaf.shape[0], -1)[:, 0]
        ids = []
        for x in col:
            ok = onp.isfinite(x) and float(x) == round(float(x))
            ids.append(int(round(float(x))) - off if ok else -1)
        out.append(ids)
    return out


def num(x):
    x = float(onp.asarray(x).reshape(-1)[0])
    return int(x) if x == x and abs(x) < 1e9 and x == round(x) else -999999


def build(kind, clk0, stp0, seed=7):
    p = Probe(float(clk0), float(stp0))
    if kind == "seq":
        return pmm.SequentialModel([p], rng=seed), p
    if kind == "tuple":
        return pmm.SequentialModel((p,), rng=seed), p
    if kind == "nested":
        return pmm.SequentialModel([pmm.SequentialModel([p])], rng=seed), p
    if kind == "nonseq":
        return pmm.NonSequentialModel({"P": p}, {"input": "P", "P": "output"}, rng=seed), p
    raise ValueError(kind)


def digest(*trees):
    import hashlib
    h = hashlib.sha256()
    for t in trees:
        for leaf in jax.tree.leaves(t):
            if hasattr(leaf, "dtype") and jnp.issubdtype(leaf.dtype, jax.dtypes.prng_key):
                leaf = jax.random.key_data(leaf)
            a = onp.asarray(leaf)
            h.update(str(a.dtype).encode() + str(a.shape).encode() + a.tobytes())
    return h.hexdigest()


CLS = {}


SIGS = {"int": signal.SIGINT, "term": signal.SIGTERM}
OWN = {"int": 0, "term": 0}
DEFAULT = {"int": signal.default_int_handler, "term": signal.SIG_DFL}


def own_int(*a):
    OWN["int"] += 1


def own_term(*a):
    OWN["term"] += 1


HANDLER = {"int": own_int, "term": own_term}


def set_disp(d):
    for k, v in d.items():
        signal.signal(SIGS[k], {"default": DEFAULT[k], "ignore": signal.SIG_IGN, "own": HANDLER[k]}[v])


def get_disp():
    out = {}
    for k in SIGS:
        h = signal.getsignal(SIGS[k])
        out[k] = "default" if h == DEFAULT[k] else "ignore" if h == signal.SIG_IGN else "own" if h == HANDLER[k] else "other"
    return out


def send(k, disp):
    before = OWN[k]
    signal.pthread_kill(threading.get_ident(), SIGS[k])
    time.sleep(0.01)             # a pending handler runs
    return bool(disp[k] == "ignore" or OWN[k] > before)


class Planned(Exception):
    pass


def train_run(m, p, cfg, scn, log, plan=None, disp=None):
    count = [0]

    def before():
        """signals and failures planned for this moment"""
        count[0] += 1
        for n, k in (plan or {}).get("sigs", []):
            if n == count[0]:
                log.append(dict(e="sig", sig=k, own=send(k, disp)))
        if plan and plan.get("fail") == count[0]:
            raise Planned("planned failure")
    n, nv = cfg["n"], cfg["nv"]
    xk, yk = scn["xk"], scn["yk"]
    X = tree_of(xk, range(1, n + 1), XOFF)
    Y = tree_of(yk, range(1, n + 1), YOFF) if yk != "none" else None
    U = tree_of(yk, range(1, n + 1), UOFF) if scn["unc"] else None
    sep = cfg["sepval"]            # separate validation set?
    XV = tree_of(xk, range(1, nv + 1), XOFF + VOFF) if sep else None
    YV = tree_of(yk, range(1, nv + 1), YOFF + VOFF) if sep and Y is not None else None
    UV = tree_of(yk, range(1, nv + 1), UOFF + VOFF) if sep and U is not None else None
    voff = VOFF if sep else 0
    L = jnp.asarray(cfg["loss"], dtype=jnp.float32)
    bs = min(cfg["bs"], n)
    nb = -(-n // bs)
    stp_start = num(p_state(m))
    rec = cfg["batches"]
    ordered = not scn.get("fwd", False)

    def emit(kind, off, ep, x, y, u, pred):
        before()
        pred = onp.asarray(pred)
        log.append(dict(e=kind, x=ids_of(x, XOFF + off), y=ids_of(y, YOFF + off) if y is not None else [],
                        u=ids_of(u, UOFF + off) if u is not None else [],
                        clk=num(pred[0, 0]), stp=num(pred[0, 1]), mode=num(pred[0, 2]), ep=int(ep)))

    def args(a):
        if Y is None:
            (x, pred), y, u = a, None, None
        elif U is None:
            (x, y, pred), u = a, None
        else:
            x, y, u, pred = a
        return x, y, u, pred

    def loss(ep, *a):
        x, y, u, pred = args(a)
        if cfg.get("fails") == "trace":
            raise Planned("planned failure")
        if rec:
            jax.debug.callback(lambda ep, x, y, u, pred: emit("train", 0, ep, x, y, u, pred),
                               ep, x, y, u, pred, ordered=ordered)
        return -pred[:, 0].mean()

    def vloss(ep, *a):
        x, y, u, pred = args(a)
        if rec:
            jax.debug.callback(lambda ep, x, y, u, pred: emit("val", voff, ep, x, y, u, pred),
                               ep, x, y, u, pred, ordered=ordered)
        j = jnp.round((pred[0, 1] - stp_start) / nb).astype(jnp.int32)
        return L[jnp.clip(j, 0, L.shape[0] - 1)]

    shifts = jnp.asarray((list(cfg["cb"]) + [0] * 200)[:200], dtype=jnp.float32)

    def cb(r, e, params):
        if cfg["hascb"]:
            jax.debug.callback(lambda e, q: (before(), log.append(dict(e="cb", epoch=int(e), clk=num(q)))),
                               e, jax.tree.leaves(params)[0], ordered=ordered)
        return r, jax.tree.map(lambda q: q + shifts[e], params)

    kw = dict(X_val=XV, Y_val=YV, Y_unc=U, Y_val_unc=UV, loss_fn=loss, val_loss_fn=vloss,
              lr=(lambda i: i + 1.0) if cfg["sched"] else 1.0, b1=0.0, b2=0.0, eps=0.0,
              batch_size=cfg["bs"], val_batch_size=cfg["vbs"], epochs=cfg["E"],
              early_stopping_patience=cfg["P"], verbose=bool(scn.get("verbose", False) or cfg.get("verbose")),
              batch_rng=scn["seed"], resume=cfg["from"] == "resume",
              callback=cb if (cfg["hascb"] or any(cfg["cb"])) else None)
    if scn.get("unroll"):
        kw["unroll"] = scn["unroll"]
    if scn.get("fwd"):
        kw["fwd"] = True
    if cfg["hasD"]:
        kw["early_stopping_min_delta"] = cfg["D"] / 2
    if cfg["hasT"]:
        kw["target_loss"] = cfg["T"] / 2
    if Y is None:
        m.train(X, **kw)
    else:
        m.train(X, Y, **kw)
    jax.effects_barrier()


def p_state(m):
    return jax.tree.leaves(m.get_state())[0]


def p_param(m):
    return jax.tree.leaves(m.get_params())[0]


def run(scn):
    log = []
    m = p = None
    classes = {}
    plans = scn.get("plans")
    disp = {}
    for i, cfg in enumerate(scn["runs"]):
        if i:
            log.append(dict(e="run"))
        plan = plans[i] if plans else None
        failed = None
        try:
            if plan and plan["disp"]:
                disp = plan["disp"]
                set_disp(disp); log.append(dict(e="disp", **disp))
            if cfg["from"] == "fresh":
                m, p = build(scn["model"], cfg["clk0"], cfg["stp0"], scn["mseed"])
                xs = jax.tree.map(lambda a: a.shape[1:], tree_of(scn["xk"], [1, 2], 0))
                m.compile(scn["mseed"], xs)
            elif scn.get("reload") and i:
                import tempfile, os
                fd, fn = tempfile.mkstemp(suffix=".npz"); os.close(fd)
                m.save(fn)
                m = type(m).from_file(fn)
                os.unlink(fn)
            try:
                train_run(m, p, cfg, scn, log, plan, disp)
            except BaseException as ex:
                if plans is None or (cfg["fails"] == "" and isinstance(ex, Exception)):
                    raise
                failed = ex
                try:
                    jax.effects_barrier()
                except BaseException:
                    pass
                from jax._src import dispatch
                dispatch.runtime_tokens.clear()
            if failed is not None:
                log.append(dict(e="exc", msg=f"{type(failed).__name__}: {str(failed)[:200]}", clk=num(p_param(m)), stp=num(p_state(m))))
            else:                log.append(dict(e="ret", clk=num(p_param(m)), stp=num(p_state(m))))
            if plans:
                log.append(dict(e="after", **get_disp()))
                for k in plan["pokes"]:
                    log.append(dict(e="poke", sig=k, own=send(k, disp)))
            if scn.get("cls") and failed is None:
                d = digest(m.get_params(), m.get_state(), m.get_rng())
                k = "key" + digest(m.get_rng())
                log.append(dict(e="cls", id=classes.setdefault(d, len(classes) + 1), key=classes.setdefault(k, len(classes) + 1)))
        except Exception as ex:
            log.append(dict(e="exc", msg=f"{type(ex).__name__}: {str(ex)[:200]}", clk=0, stp=0))
            break
    if plans:
        set_disp({"int": "default", "term": "default"})
    return {"trace": {"runs": scn["runs"], "ev": log}}
