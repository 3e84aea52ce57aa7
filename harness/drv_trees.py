"""Path operations (C19) on real containers."""
import copy
from parametricmatrixmodels import tree_util as tu

PAYLOAD = {}


class Obj:
    """leaf objects (so that identity of the returned object can be checked)"""
    def __init__(self, v):
        self.v = v

    def __eq__(self, o):
        return isinstance(o, Obj) and o.v == self.v

    __hash__ = None


def dec(n):
    t = n["t"]
    if t == "n":
        return None
    if t == "x":
        return Obj(n["x"])
    cs = [dec(c) for c in n["c"]]
    return dict(zip(n["k"], cs)) if t == "d" else cs if t == "l" else tuple(cs)


def enc(o):
    if o is None:
        return {"t": "n"}
    if isinstance(o, Obj):
        return {"t": "x", "x": o.v}
    if isinstance(o, dict):
        return {"t": "d", "k": [str(k) for k in o], "c": [enc(c) for c in o.values()]}
    if isinstance(o, (list, tuple)):
        return {"t": "l" if type(o) is list else "u", "c": [enc(c) for c in o]}
    return {"t": "x", "x": -77}


def comp(s):
    return {"s": s, "i": int(s) if s.isascii() and s.isdigit() else -1}


def run(scn):
    sep = scn["sep"]
    cur = dec(scn["tree"])
    ev = []

    def js(p):
        return sep.join(c["s"] for c in p)

    kw = {} if sep == "." and scn.get("defsep") else {"separator": sep}
    for op in scn["ops"]:
        o = op["op"]
        r = dict(e=o, ok=True, msg="", tl=bool(op.get("tl")))
        lf = {"is_leaf": lambda n: isinstance(n, tuple)} if op.get("tl") else {}
        try:
            if o == "get":
                r.update(p=op["p"], early=op["early"], rest=[], same=True, v={"t": "n"})
                res = tu.getitem_by_strpath(cur, js(op["p"]), allow_early_return=op["early"],
                                            return_remainder=op["rem"], **kw, **lf)
                if op["rem"]:
                    res, rest = res
                    r["rest"] = [comp(s) for s in rest.split(sep)] if rest else []
                elif op["early"]:
                    r["rest"] = op["rest_expected"]
                r["v"] = enc(res)
                # identity: walk by hand
                w = cur
                for c in op["p"][:len(op["p"]) - len(r["rest"])]:
                    w = w[c["s"]] if isinstance(w, dict) else w[c["i"]]
                r["same"] = w is res
            elif o == "put":
                r.update(p=op["p"], v=op["v"])
                tu.setitem_by_strpath(cur, js(op["p"]), dec(op["v"]), **kw, **lf)
            elif o == "grow":
                r.update(ps=op["ps"], vs=op["vs"], none=op["none"], v={"t": "n"})
                before = cur
                fv = [dec(v) for v in op["vs"]]
                form = op["form"]
                if form == "tuple":
                    fv = tuple(fv)
                elif form == "single":
                    fv = fv[0]
                res = tu.extend_structure_from_strpaths(None if op["none"] else cur, [js(p) for p in op["ps"]],
                                                        fill_values=fv, **kw)
                r["v"] = enc(res)
                r["after"] = enc(before)
                cur = res
            elif o == "thaw":
                before = cur
                res = tu.make_mutable(cur)
                r["v"] = enc(res); r["after"] = enc(before); cur = res
        except (KeyError, IndexError, TypeError, ValueError) as ex:
            r["ok"] = False
            r["msg"] = f"{type(ex).__name__}: {ex}"[:150]
        r.setdefault("after", enc(cur))
        ev.append(r)
    return {"trace": dict(tree=scn["tree"], ev=ev)}
