"""Calibrates models with integer gradients and records sensitivities and corrected predictions (C24)."""
import traceback, warnings
import jax, jax.numpy as jnp, numpy as onp
import parametricmatrixmodels as pmm
import probes
from drv_conf import CM, hand_over

warnings.simplefilter("ignore")
F32 = jnp.float32


def build(scn):
    m = probes.Poly(dict(outs=scn["outs"], theta=scn["theta"], tout=scn["tout"], tpar=scn["tpar"], unit=scn["unit"]))
    w = scn["wrap"]
    if w == "seq":
        r = pmm.SequentialModel([m])
    elif w == "dict":
        r = pmm.SequentialModel({"k": m})
    elif w == "nested":
        r = pmm.SequentialModel([pmm.SequentialModel((m,))])
    else:
        r = pmm.NonSequentialModel({"m0": m}, {"input": "m0", "m0": "output"})
    r.compile(3, probes.type_shapes(scn["tin"]))
    return r


def data(t, rows, unit=1):
    return probes.like_type(t, jnp.asarray(onp.asarray(rows, "f4") / onp.asarray(unit, "f4")))


def per_leaf(t, vals):
    """a tree of the type with one value per leaf"""
    it = iter(vals)

    def go(t):
        if "s" in t:
            return next(it)
        if "d" in t:
            return {k: go(x) for k, x in t["d"]}
        return tuple(go(x) for x in t["u"]) if "u" in t else [go(x) for x in t["l"]]
    return go(t)


def fx(tree, n):
    a = onp.concatenate([onp.asarray(x, "f8").reshape(n, -1) for x in jax.tree.leaves(tree)], axis=1)
    if not onp.all(onp.isfinite(a)):
        raise RuntimeError("not a number")
    return onp.rint(onp.clip(a * 1024, -2 ** 28, 2 ** 28)).astype(int).tolist()


def run(scn):
    ev = []
    leaf = [k for k, s in enumerate(scn["lout"]) for _ in range(int(onp.prod(s)))]
    try:
        model = build(scn)
        m = CM(model, nn_dist_quantile=scn["nnq"] / 4)
        kw = dict(dtype=F32, max_batch_size=scn["mbs"], fwd=scn["fwd"])
        for h in scn["hist"]:
            if h["op"] == "pass":
                m = hand_over(m, h["how"]); ev.append(dict(e="pass"))
            elif h["op"] == "cal":
                lastcal = h
                full = lambda v, k: [v] * k if isinstance(v, bool) else v
                L, P = len(scn["lin"]), len(scn["lpar"])
                sel = lambda v, t: v if isinstance(v, bool) else per_leaf(t, v)
                par = h["psel"] if isinstance(h["psel"], bool) else jax.tree.unflatten(jax.tree.structure(m.model.get_params()), h["psel"])
                o = dict(parameter_sensitivity=par, input_sensitivity=sel(h["ins"], scn["tin"]), distance_sensitivity=sel(h["dist"], scn["tin"]))
                if h["train"]:
                    o["X_train"] = data(scn["tin"], h["train"], scn["unit"])
                if h["unc"]:
                    o["X_cal_unc"] = data(scn["tin"], h["unc"], scn["unit"])
                if h["contarg"]:
                    o["continuous_features"] = per_leaf(scn["tin"], [not c for c in scn["cats"]])
                if h["bias"] == "all":
                    o["stratified_bias_corrections"] = True
                elif h["bias"] == "off":
                    o["stratified_bias_corrections"] = False
                elif h["bias"] == "strata":
                    o["stratified_bias_corrections"] = per_leaf(scn["tin"], [k in h["biasat"] for k in range(L)])
                m.calibrate(data(scn["tin"], h["X"], scn["unit"]), data(scn["tout"], h["Y"]), skip_sanity_checks=True, **o, **kw)
                sizes = [int(onp.prod(s)) for s in scn["lpar"]]
                C = dict(unit=scn["unit"], theta=scn["theta"], psel=[b for b, k in zip(full(h["psel"], P), sizes) for _ in range(k)], train=h["train"], nnq=scn["nnq"],
                         feats=[dict(cat=c, at=a, ins=i, dist=d) for c, a, i, d in zip(scn["cats"], scn["at"], full(h["ins"], L), full(h["dist"], L))])
                ev.append(dict(e="cal", C=C, X=h["X"], unc=h["unc"], Y=h["Y"], pon=h["pon"], ion=h["ion"], don=h["don"], bias={"off": "none"}.get(h["bias"], h["bias"]),
                               biasat=[i for k in h["biasat"] for i in scn["at"][k]]))
            else:
                rows, unc = (lastcal["X"], lastcal["unc"]) if h["self_"] else (h["X"], h["unc"])
                if not lastcal["ion"]:
                    unc = []
                X = data(scn["tin"], rows, scn["unit"]); n = len(rows)
                U = data(scn["tin"], unc, scn["unit"]) if unc else None
                r = dict(e="eval", X=rows, unc=unc, P=[], Pn=[], I=[], In=[], D=[], Dn=[])
                if lastcal["pon"]:
                    r["P"], r["Pn"] = [fx(m.parameter_sensitivity(X, normalize=z, **kw), n) for z in (False, True)]
                if lastcal["ion"]:
                    r["I"], r["In"] = [fx(m.input_sensitivity(X, X_unc=U, normalize=z, **kw), n) for z in (False, True)]
                if lastcal["don"]:
                    r["D"], r["Dn"] = [[v[0] for v in fx(m.distance_sensitivity(X, normalize=z, dtype=F32), n)] for z in (False, True)]
                r["u"] = fx(m.uncertainty_heuristic(X, X_unc=U, **kw), n)
                y = fx(m(X, X_unc=U, **kw)[0], n)
                r["y2"] = [[v // 512 if v % 512 == 0 else 10 ** 8 for v in row] for row in y]
                ev.append(r)
    except Exception as ex:
        ev.append(dict(e="exc", msg=f"{type(ex).__name__}: {str(ex)[:300]}", tb=traceback.format_exc()[-1500:]))
    return {"trace": dict(ev=ev, outs=scn["outs"], leaf=leaf)}
