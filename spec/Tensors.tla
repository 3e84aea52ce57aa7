------------------------------- MODULE Tensors -------------------------------
(* What the array modules compute, for one sample, over Gaussian integers <<re, im>>.
   Trees   leaf [k |-> "t", s |-> shape, v |-> entries (row-major), c |-> <<>>, x |-> <<>>]
           container [k |-> "d"|"l"|"u", s |-> <<>>, v |-> <<>>, c |-> keys ("0", "1", .. for sequences), x |-> subtrees]
   Modules records with field m (kind), their options, and par, the parameter arrays (leaves) in use.
   Paths are sequences of keys. *)
EXTENDS Eigen, SequencesExt, FiniteSetsExt
Leaf(s, v) == [k |-> "t", s |-> s, v |-> v, c |-> <<>>, x |-> <<>>]
Node(k, c, x) == [k |-> k, s |-> <<>>, v |-> <<>>, c |-> c, x |-> x]
RECURSIVE Prod(_)
Prod(s) == IF s = <<>> THEN 1 ELSE s[1] * Prod(Tail(s))
RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE s[1] + SumSeq(Tail(s))
Add(a, b) == <<a[1] + b[1], a[2] + b[2]>>
Sub(a, b) == <<a[1] - b[1], a[2] - b[2]>>
Mul(a, b) == <<a[1] * b[1] - a[2] * b[2], a[1] * b[2] + a[2] * b[1]>>
Conj(a) == <<a[1], -a[2]>>
Sqr(a) == a[1] * a[1] + a[2] * a[2]
Scale(n, a) == <<n * a[1], n * a[2]>>
Zero == <<0, 0>>
One == <<1, 0>>
(* --- indexing: entry of a leaf at a tuple of 0-based indices, and the tuple of a place *)
RECURSIVE PosR(_, _, _)
PosR(s, ix, acc) == IF s = <<>> THEN acc + 1 ELSE PosR(Tail(s), Tail(ix), acc * s[1] + ix[1])
At(t, ix) == t.v[PosR(t.s, ix, 0)]
RECURSIVE Tuples(_)
Tuples(s) == IF s = <<>> THEN << <<>> >>          \* all index tuples in row-major order
             ELSE LET r == Tuples(Tail(s)) IN FlattenSeq([i \in 1..s[1] |-> [j \in 1..Len(r) |-> <<i - 1>> \o r[j]]])
Build(s, f(_)) == LET ts == Tuples(s) IN Leaf(s, [i \in 1..Len(ts) |-> f(ts[i])])
CSum(S, f(_)) == FoldSet(LAMBDA e, acc : Add(f(e), acc), Zero, S)
Digits == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "10", "11", "12", "13", "14", "15", "16", "17", "18", "19", "20", "21", "22", "23", "24", "25", "26", "27">>
(* --- trees *)
RECURSIVE Leaves(_)
Leaves(n) == IF n.k = "t" THEN <<n>> ELSE FlattenSeq([i \in 1..Len(n.x) |-> Leaves(n.x[i])])
RECURSIVE Paths(_)
Paths(n) == IF n.k = "t" THEN << <<>> >>
            ELSE FlattenSeq([i \in 1..Len(n.x) |-> LET r == Paths(n.x[i]) IN [j \in 1..Len(r) |-> <<n.c[i]>> \o r[j]]])
RECURSIVE Get(_, _)
Get(n, p) == IF p = <<>> THEN n ELSE Get(n.x[CHOOSE i \in 1..Len(n.c) : n.c[i] = p[1]], Tail(p))
(* the tree with its leaves replaced, in order *)
RECURSIVE Fill(_, _)
Fill(n, ls) == IF n.k = "t" THEN ls[1]
               ELSE LET cnt == [i \in 1..Len(n.x) |-> Len(Leaves(n.x[i]))]
                        off == [i \in 1..Len(n.x) |-> SumSeq(SubSeq(cnt, 1, i - 1))] IN
                    [n EXCEPT !.x = [i \in 1..Len(n.x) |-> Fill(n.x[i], SubSeq(ls, off[i] + 1, off[i] + cnt[i]))]]
MapLeaves(n, f(_, _)) == LET ls == Leaves(n) IN Fill(n, [i \in 1..Len(ls) |-> f(i, ls[i])])
Each(t, f(_)) == [t EXCEPT !.v = [i \in 1..Len(t.v) |-> f(t.v[i])]]
(* --- contraction: ws[i] is the index word of ts[i]; out the word of the result *)
Letters(ws) == UNION {{ws[i][j] : j \in 1..Len(ws[i])} : i \in 1..Len(ws)}
SizeOf(ws, ts, a) == LET i == CHOOSE i \in 1..Len(ws) : \E j \in 1..Len(ws[i]) : ws[i][j] = a
                         j == CHOOSE j \in 1..Len(ws[i]) : ws[i][j] = a IN ts[i].s[j]
RECURSIVE Assign(_, _)                              \* all maps from a set of letters to indices below their sizes
Assign(R, sz) == IF R = {} THEN {[a \in {} |-> 0]}
                 ELSE LET a == CHOOSE a \in R : TRUE IN
                      {[b \in R |-> IF b = a THEN i ELSE f[b]] : i \in 0..(sz[a] - 1), f \in Assign(R \ {a}, sz)}
RECURSIVE ProdAt(_, _, _)
ProdAt(ws, ts, f) == IF ws = <<>> THEN One ELSE Mul(At(ts[1], [j \in 1..Len(ws[1]) |-> f[ws[1][j]]]), ProdAt(Tail(ws), Tail(ts), f))
Contract(ws, ts, out) ==
  LET L == Letters(ws)  O == {out[j] : j \in 1..Len(out)}
      sz == [a \in L |-> SizeOf(ws, ts, a)]
      free == Assign(L \ O, sz) IN
  Build([j \in 1..Len(out) |-> sz[out[j]]],
        LAMBDA ix : CSum(free, LAMBDA g : ProdAt(ws, ts, [a \in L |-> IF a \in O THEN ix[CHOOSE j \in 1..Len(out) : out[j] = a] ELSE g[a]])))
(* the word of the result if none was given: letters that occur once, in alphabetical order *)
Inferred(ws) == LET all == FlattenSeq(ws) IN
  SetToSortSeq({a \in Letters(ws) : Cardinality({i \in 1..Len(all) : all[i] = a}) = 1}, LAMBDA a, b : a < b)
Chain(ts) == LET k == Len(ts) IN
  Contract([i \in 1..k |-> IF Len(ts[i].s) = 1 THEN <<i>> ELSE <<i, i + 1>>], ts, IF Len(ts[k].s) = 1 THEN <<1>> ELSE <<1, k + 1>>)
(* --- matrices *)
Mat(p, i) == LET n == p.s[2] m == p.s[3] IN Leaf(<<n, m>>, SubSeq(p.v, (i - 1) * n * m + 1, i * n * m))
Slice(p, i) == LET r == Tail(p.s) IN Leaf(r, SubSeq(p.v, (i - 1) * Prod(r) + 1, i * Prod(r)))
Dagger(t) == Build(<<t.s[2], t.s[1]>>, LAMBDA ix : Conj(At(t, <<ix[2], ix[1]>>)))
Plus(a, b) == [a EXCEPT !.v = [i \in 1..Len(a.v) |-> Add(a.v[i], b.v[i])]]
Minus(a, b) == [a EXCEPT !.v = [i \in 1..Len(a.v) |-> Sub(a.v[i], b.v[i])]]
Times(z, a) == Each(a, LAMBDA e : Mul(z, e))
RECURSIVE TPlus(_)
TPlus(ts) == IF Len(ts) = 1 THEN ts[1] ELSE Plus(ts[1], TPlus(Tail(ts)))
Comm(a, b) == Minus(Chain(<<a, b>>), Chain(<<b, a>>))
(* sqrt(-1) times the sum of the commutators [M_i, M_j], i > j *)
Smooth(ms) == LET z == Times(Zero, ms[1]) IN
  Times(<<0, 1>>, FoldSet(LAMBDA pr, acc : Plus(acc, Comm(ms[pr[1]], ms[pr[2]])), z, {pr \in (1..Len(ms)) \X (1..Len(ms)) : pr[1] > pr[2]}))
Affine(ms, x, bias, smooth) ==
  LET o == IF bias THEN 1 ELSE 0
      lin == [i \in 1..Len(x.v) |-> Times(x.v[i], ms[i + o])]
      m == IF bias THEN TPlus(<<ms[1]>> \o lin) ELSE TPlus(lin) IN
  IF smooth = 0 THEN m ELSE Plus(m, Times(<<smooth, 0>>, Smooth(ms)))
LowRank(ls, us, p) ==        \* sum over r of l_pr u_pr u_pr^H
  Build(<<us.s[2], us.s[2]>>, LAMBDA ix : CSum(0..(us.s[3] - 1), LAMBDA r : Mul(At(ls, <<p - 1, r>>), Mul(At(us, <<p - 1, ix[1], r>>), Conj(At(us, <<p - 1, ix[2], r>>))))))
Norm2(d, q, l) == Max({MapThenSumSet(LAMBDA j : Sqr(At(d, <<q, l, i, j>>)), 0..(d.s[3] - 1)) : i \in 0..(d.s[3] - 1)})   \* squared operator norm, for matrices with a diagonal square
(* twice the value of observable sums; V: n x r, columns are the vectors *)
Bra(d, V, q, l, i, j) == CSum((0..(d.s[3] - 1)) \X (0..(d.s[3] - 1)), LAMBDA ab : Mul(Conj(At(V, <<ab[1], i>>)), Mul(At(d, <<q, l, ab[1], ab[2]>>), At(V, <<ab[2], j>>))))
Observed(d, V, kind, centered) ==
  LET R == 0..(V.s[2] - 1) L == 0..(d.s[2] - 1)
      raw(q) == IF kind = "ev" THEN CSum(L \X R, LAMBDA li : Bra(d, V, q, li[1], li[2], li[2]))[1]
                ELSE MapThenSumSet(LAMBDA lij : Sqr(Bra(d, V, q, lij[1], lij[2], lij[3])), L \X R \X R)
      c(q) == IF centered THEN MapThenSumSet(LAMBDA l : Norm2(d, q, l), L) ELSE 0 IN
  Build(<<d.s[1]>>, LAMBDA ix : <<2 * raw(ix[1]) - c(ix[1]), 0>>)
Apply1(f, a, e) ==
  LET r == e[1] IN
  CASE f = "relu" -> <<IF r > 0 THEN r ELSE 0, 0>>
    [] f = "relu6" -> <<IF r < 0 THEN 0 ELSE IF r > 6 THEN 6 ELSE r, 0>>
    [] f = "hardtanh" -> <<IF r < -1 THEN -1 ELSE IF r > 1 THEN 1 ELSE r, 0>>
    [] f = "leaky" -> <<IF r < 0 THEN a * r ELSE r, 0>>
    [] f = "abs" -> <<Abs(r), 0>>
    [] f = "square" -> <<r * r, 0>>
    [] OTHER -> e
Rect(t, a) == [t EXCEPT !.v = [i \in 1..Len(t.v) |-> IF t.v[i][1] < 0 THEN Mul(IF Len(a.v) = 1 THEN a.v[1] ELSE a.v[i], t.v[i]) ELSE t.v[i]]]
Act(m, t) == IF m.act.f = "prelu" THEN Rect(t, m.par[Len(m.par)]) ELSE Each(t, LAMBDA e : Apply1(m.act.f, m.act.a, e))
(* --- joining *)
Axis(a, nd) == IF a < 0 THEN a + nd + 1 ELSE a + 1        \* 1-based
RECURSIVE Find(_, _, _, _)
Find(ts, ax, i, n) == IF n < ts[i].s[ax] THEN <<i, n>> ELSE Find(ts, ax, i + 1, n - ts[i].s[ax])   \* operand and index within it
Join(ts, ax) ==
  LET s == [j \in 1..Len(ts[1].s) |-> IF j = ax THEN SumSeq([i \in 1..Len(ts) |-> ts[i].s[ax]]) ELSE ts[1].s[j]] IN
  Build(s, LAMBDA ix : LET w == Find(ts, ax, 1, ix[ax]) IN At(ts[w[1]], [ix EXCEPT ![ax] = w[2]]))
Flat(t) == Leaf(<<Len(t.v)>>, t.v)
(* shape with an entry -1 to infer *)
Resolve(s, n) == LET known == Prod([j \in 1..Len(s) |-> IF s[j] = -1 THEN 1 ELSE s[j]]) IN [j \in 1..Len(s) |-> IF s[j] = -1 THEN n \div known ELSE s[j]]
(* --- observables of an affine model with diagonal matrices whose eigenvalue keys differ *)
Spectrum(ms, x, bias) == LET t == Affine(ms, x, bias, 0) n == t.s[1] IN [i \in 1..n |-> At(t, <<i - 1, i - 1>>)[1]]
Chosen(m, s) == LET w == Wanted(m.end, m.by, s, m.k) IN {i \in 1..Len(s) : \E j \in 1..m.k : Key(m.by, s[i]) = w[j]}
Basis(n, S) == LET o == SetToSortSeq(S, LAMBDA a, b : a < b) IN Build(<<n, Len(o)>>, LAMBDA ix : IF o[ix[2] + 1] = ix[1] + 1 THEN One ELSE Zero)
Mats(p) == [i \in 1..p.s[1] |-> Slice(p, i)]
(* --- the modules *)
Eval(m, n) ==
  CASE m.m = "einsum" ->
         LET ws == m.lead \o m.terms  ts == m.par \o Leaves(n) IN Contract(ws, ts, IF m.infer THEN Inferred(ws) ELSE m.out)
    [] m.m = "matmul" ->
         LET ps == IF m.ordered THEN m.order ELSE (IF m.par = <<>> THEN <<>> ELSE << <<"", "">> >>) \o Paths(n) IN
         Chain([i \in 1..Len(ps) |-> IF ps[i] = <<"", "">> THEN m.par[1] ELSE Get(n, ps[i])])
    [] m.m = "reshape" -> MapLeaves(n, LAMBDA i, t : IF m.keep[i] THEN t ELSE Leaf(Resolve(m.shapes[i], Len(t.v)), t.v))
    [] m.m = "flatten" -> MapLeaves(n, LAMBDA i, t : Flat(t))
    [] m.m = "treeflatten" -> LET ls == Leaves(n) IN Node("l", [i \in 1..Len(ls) |-> Digits[i]], ls)
    [] m.m = "treekey" -> IF m.form = "s" THEN Get(n, m.paths[1]) ELSE Node(m.form, m.keys, [i \in 1..Len(m.paths) |-> Get(n, m.paths[i])])
    [] m.m = "concat" ->
         LET ls == IF m.ordered THEN [i \in 1..Len(m.order) |-> Get(n, m.order[i])] ELSE Leaves(n) IN
         IF m.flat THEN Join([i \in 1..Len(ls) |-> Flat(ls[i])], 1) ELSE Join(ls, Axis(m.axis, Len(ls[1].s)))
    [] m.m = "bias" -> MapLeaves(n, LAMBDA i, t : LET b == IF Len(m.par) = 1 THEN m.par[1] ELSE m.par[i] IN
                                      [t EXCEPT !.v = [e \in 1..Len(t.v) |-> Add(t.v[e], IF Len(b.v) = 1 THEN b.v[1] ELSE b.v[e])]])
    [] m.m = "constant" -> Fill(m.skel, m.par)
    [] m.m = "prelu" -> MapLeaves(n, LAMBDA i, t : Rect(t, IF m.single THEN m.par[1] ELSE m.par[i]))
    [] m.m = "act" -> MapLeaves(n, LAMBDA i, t : Each(t, LAMBDA e : Apply1(m.act.f, m.act.a, e)))
    [] m.m = "linear" ->
         LET t == Leaves(n)[1] y == Chain(<<m.par[1], Flat(t)>>)
             z == IF m.bias THEN Plus(y, m.par[2]) ELSE y IN
         IF m.act.f = "" THEN z ELSE Act(m, z)
    [] m.m = "affine" -> MapLeaves(n, LAMBDA i, t : Affine(Mats(m.par[1]), t, m.bias, m.smooth))
    [] m.m = "lowrank" -> MapLeaves(n, LAMBDA i, t : Affine([p \in 1..m.par[1].s[1] |-> LowRank(m.par[1], m.par[2], p)], t, m.bias, m.smooth))
    [] m.m = "obs" -> MapLeaves(n, LAMBDA i, t : Observed(m.par[1], t, m.kind, m.centered))
    [] m.m = "affobs" ->
         MapLeaves(n, LAMBDA i, t : LET s == Spectrum(Mats(m.par[1]), t, m.bias)
                                        y == Observed(m.par[2], Basis(Len(s), Chosen(m, s)), m.kind, m.centered) IN
                                    IF Len(m.par) = 3 THEN Plus(y, Times(<<2, 0>>, m.par[3])) ELSE y)
    [] OTHER -> n
RECURSIVE Run(_, _)
Run(ms, n) == IF ms = <<>> THEN n ELSE Run(Tail(ms), Eval(ms[1], n))
Halves(m) == m.m \in {"obs", "affobs"}          \* results in units of one half
=============================================================================
