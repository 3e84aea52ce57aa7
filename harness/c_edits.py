"""C07: edits of sequential models."""
import lib

CFG = "INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nCONSTANTS Depth={d}\n"
INV = "INVARIANT TrailLength\nINVARIANT CompiledWidths\nPROPERTY EditedNotReady\nPROPERTY InnerEditStopsOuter\nPROPERTY AddKeeps\n"


def decorate(rng, s1, s2, nl, ops, kind=None):
    kind = kind or rng.choice(["list", "list", "tuple", "dict"])
    for o in ops:
        o["how"] = rng.randrange(30)
        o["mbs"] = rng.choice([None, None, 1, 2])
        o["obs"] = rng.choice([[1, 2, 3], [1, 3], [1], [1, 2, 3], []]) if o is not ops[-1] else [1, 2, 3]
    if kind == "dict" and any(o["op"] == "add" for o in ops):
        kind = "list"        # a key made up by "+" sorts anywhere: see known findings
    return dict(s1=s1, s2=s2, v=[j for j in range(1, nl + 1)], kind=kind, kind2=rng.choice(["list", "tuple", "dict"]), ops=ops)


def rand_history(rng, n):
    s = {1: [1], 2: [2], 3: []}
    nest = rng.random() < 0.6
    if rng.random() < .5:
        s[1].append(3)
    if nest:
        s[1].insert(rng.randrange(len(s[1]) + 1), 0)
    ini = (list(s[1]), list(s[2]) if nest else [])
    nxt, ops, NL = 4, [], n + 6
    for t in range(n):
        o = rng.choice([1, 1, 2] if nest else [1])
        if s[3] and rng.random() < 0.2:
            o = 3
        x = rng.random()
        if x < 0.3:
            i = rng.choice([0, len(s[o]), rng.randrange(len(s[o]) + 1)])
            ops.append(dict(op="insert", o=o, i=i, x=nxt)); s[o].insert(i, nxt); nxt += 1
        elif x < 0.4 and s[o]:
            i = rng.randrange(len(s[o]))
            if s[o][i]:
                ops.append(dict(op="replace", o=o, i=i + 1, x=nxt)); s[o][i] = nxt; nxt += 1
        elif x < 0.52 and len(s[o]) > 0:
            i = rng.randrange(len(s[o]))
            if s[o][i]:
                ops.append(dict(op="pop", o=o, i=i + 1)); s[o].pop(i)
        elif x < 0.56 and not (o == 1 and nest):
            ops.append(dict(op="all", o=o, s=[nxt])); s[o] = [nxt]; nxt += 1
        elif x < 0.88 and s[o]:
            ops.append(dict(op="compile", o=o, n=rng.choice([1, 2, 2, 3])))
        elif x < 0.95:
            ops.append(dict(op="set", o=o, v=[20 * (t + 1) + j for j in range(1, NL + 1)]))
        elif not s[3] and s[1]:
            ops.append(dict(op="add", x=nxt)); s[3] = s[1] + [nxt]; nxt += 1
    ops.append(dict(op="compile", o=1, n=2)) if s[1] else None
    return decorate(rng, ini[0], ini[1], NL, ops) if ops else rand_history(rng, n)


def c07(ck):
    rng = ck.rng
    lib.model_check("MCEdits", CFG.format(d=ck.pick(4, 5)) + INV, ck.stats)
    beh, total = lib.behaviours("MCEdits", CFG.format(d=4) + "INVARIANT Dump\n", ck.stats)
    ck.stats.extra["spec_behaviours_enumerated"] = total
    beh = [b for b in beh if any(o["op"] == "compile" for o in b["ops"][:-1])]
    beh = rng.sample(beh, min(len(beh), ck.pick(220, 6000)))
    scns = []
    for b in beh:
        tail = [dict(op="compile", o=1, n=rng.choice([1, 2]))]
        s = decorate(rng, b["s1"], b["s2"], b["nl"], b["ops"] + tail)
        if all_nonempty(s):
            scns.append(s)
    for _ in range(ck.pick(120, 3000)):
        s = rand_history(rng, rng.randrange(4, 12))
        if all_nonempty(s):
            scns.append(s)
    # known finding: modules kept in a dictionary are applied in the sorted order of their keys
    for name, s1, ops in (("dict-order-construct", [1, 2], [dict(op="compile", o=1, n=1)]),
                          ("dict-order-append", [1], [dict(op="insert", o=1, i=1, x=2), dict(op="compile", o=1, n=1)])):
        s = decorate(rng, s1, [], 4, ops, kind="dict")
        s.update(rev=True, finding=name)
        scns.append(s)
    ck.run_and_judge("drv_edits", "EditsTrace", scns, key=lambda s, r: s.get("finding"))


def all_nonempty(s):
    """compile of an empty model (or of one with an empty nested model) is outside the histories"""
    q = {1: list(s["s1"]), 2: list(s["s2"]), 3: []}
    for o in s["ops"]:
        if o["op"] == "insert": q[o["o"]].insert(o["i"], o["x"])
        elif o["op"] == "replace": q[o["o"]][o["i"] - 1] = o["x"]
        elif o["op"] == "pop": q[o["o"]].pop(o["i"] - 1)
        elif o["op"] == "all": q[o["o"]] = list(o["s"])
        elif o["op"] == "add": q[3] = q[1] + [o["x"]]
        elif o["op"] == "compile" and (not q[o["o"]] or (0 in q[o["o"]] and not q[2])): return False
    return True
