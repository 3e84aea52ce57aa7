"""Runs the real eigenvalue modules on matrices with known spectra (C12)."""
import traceback, warnings
import jax, jax.numpy as jnp, numpy as onp
import parametricmatrixmodels as pmm
from parametricmatrixmodels import eigen_util
from drv_conf import tree_of

M = pmm.modules
warnings.simplefilter("ignore")
NOBODY = 99999


def basis(r, n, cplx):
    a = r.randn(n, n) + (1j * r.randn(n, n) if cplx else 0)
    q, _ = onp.linalg.qr(a)
    return q


def herm(q, diag):
    h = (q * onp.asarray(diag, "f8")) @ q.conj().T
    return (h + h.conj().T) / 2


def ints(vals, scale):
    v = onp.asarray(vals, "f8") / scale
    out = []
    for x in v.reshape(-1):
        k = onp.rint(x) if onp.isfinite(x) else NOBODY
        out.append(int(k) if onp.isfinite(x) and abs(x - k) < .02 else NOBODY)
    return out


def owner(h, V, scale):
    """for every column, the eigenvalue it belongs to"""
    out = []
    h = h / scale
    for j in range(V.shape[1]):
        v = onp.asarray(V[:, j]).astype("c16")
        nn = onp.vdot(v, v).real
        e = (onp.vdot(v, h @ v) / nn).real if nn > 0 else onp.nan
        if not onp.isfinite(e) or onp.abs(h @ v - e * v).max() > .01 * onp.sqrt(nn):
            out.append(NOBODY)
        else:
            out.extend(ints([e], 1.0))
    g = onp.asarray(V).astype("c16")
    g = g.conj().T @ g
    return out, bool(onp.abs(g - onp.eye(len(g))).max() < 1e-3)


def one(s):
    ev = dict(e="ask", refused=False, ok=True, msg="", v=s["kind"] != "vectors", w=s["kind"] in ("vectors", "system") or s["kind"] == "util" and s["seed"] % 2 == 0,
              vals=[], ray=[], orth=[])
    r = onp.random.RandomState(s["seed"])
    scale = 2.0 ** s["scale"]
    k = s["k"] or None
    ct = "c8" if s["cplx"] else "f4"
    dt = jnp.complex64 if s["cplx"] else jnp.float32
    try:
        if s["affine"]:
            n = len(s["diag"][0])
            q = basis(r, n, s["cplx"])
            Ms = jnp.asarray(onp.stack([herm(q, d) for d in s["diag"]]).astype(ct))
            X = jnp.asarray(s["feat"], "f4")
            if s["kind"] == "pmm":
                m = M.AffineEigenvaluePMM(matrix_size=n, num_eig=k, which=s["which"], Ms=Ms, bias_term=s["bias"])
            else:
                m = pmm.SequentialModel([M.AffineHermitianMatrix(matrix_size=n, Ms=Ms, bias_term=s["bias"]), M.Eigenvalues(num_eig=k, which=s["which"])])
            if s["nested"]:
                m = pmm.SequentialModel([m])
            m.compile(3, X.shape[1:])
            out = m(X)
            if not (hasattr(out, "shape") and out.shape == (len(X), k or n)):
                ev["ok"] = False; ev["msg"] = str(jax.tree.map(lambda z: z.shape, out))
            else:
                ev["vals"] = [[ints(row, 1.0) for row in onp.asarray(out).real]]
        elif s["kind"] == "util":
            n = s["t"]["s"][0]
            E = jnp.asarray(s["spec"][0][0], "f4")
            if ev["w"]:
                V = onp.eye(n, dtype=ct)            # unordered pairs: column j belongs to entry j
                e, v = eigen_util.select_eigenpairs_by_eigenvalue(E, jnp.asarray(V), k, s["which"])
                o, orth = owner(onp.diag(onp.asarray(E, "f8")), onp.asarray(v), 1.0)
                ev["ray"], ev["orth"] = [[o]], [[orth]]
            else:
                e = eigen_util.select_eigenvalues(E, k, s["which"])
            ev["vals"] = [[ints(e, 1.0)]]
        else:
            it = iter(s["spec"]); hs = []

            def leaf(shape):
                sp = next(it)
                h = onp.stack([herm(basis(r, len(d), s["cplx"]), d) for d in sp]) * scale
                hs.append(h)
                return jnp.asarray(h.astype(ct))
            X = tree_of(s["t"], leaf)
            m = {"values": M.Eigenvalues, "vectors": M.Eigenvectors, "system": M.Eigensystem}[s["kind"]](num_eig=k, which=s["which"])
            m = pmm.SequentialModel([pmm.SequentialModel([m])] if s["nested"] else [m])
            m.compile(3, tree_of(s["t"], tuple))
            out = m(X, dtype=dt)
            if s["kind"] == "system":
                if set(out) != {"eigenvalues", "eigenvectors"}:
                    raise RuntimeError("keys " + str(set(out)))
                ov, ow = out["eigenvalues"], out["eigenvectors"]
            else:
                ov = ow = out
            need = jax.tree.structure(X)
            N = len(s["spec"][0])
            if jax.tree.structure(ov) != need or jax.tree.structure(ow) != need:
                ev["ok"] = False; ev["msg"] = "structure"
            for h, a, b in zip(hs, jax.tree.leaves(ov), jax.tree.leaves(ow)):
                n = h.shape[1]
                if ev["v"]:
                    if a.shape != (N, k or n):
                        ev["ok"] = False; ev["msg"] = str(a.shape)
                    else:
                        ev["vals"].append([ints(row, scale) for row in onp.asarray(a).real])
                if ev["w"]:
                    if b.shape != (N, n, k or n):
                        ev["ok"] = False; ev["msg"] = str(b.shape)
                    else:
                        p = [owner(h[i], onp.asarray(b[i]), scale) for i in range(N)]
                        ev["ray"].append([x[0] for x in p]); ev["orth"].append([x[1] for x in p])
    except Exception as ex:
        ev["refused"] = True
        ev["msg"] = f"{type(ex).__name__}: {str(ex)[:300]}"
        ev["tb"] = traceback.format_exc()[-1200:]
    return dict(ev=[ev], end=s["end"], by=s["by"], k=max(s["k"], 0), illegal=s["illegal"], affine=s["affine"],
                spec=s["spec"], diag=s.get("diag", []), feat=s.get("feat", []), bias=s.get("bias", False))


def run(scn):
    return {"traces": [one(s) for s in scn["cases"]]}
