------------------------------ MODULE Leafwise ------------------------------
(* What the array utilities do with trees of arrays (the trees of Tensors.tla, entries Gaussian integers). *)
EXTENDS Tensors
RECURSIVE Form(_)                                  \* the structure without the arrays
Form(a) == IF a.k = "t" THEN <<"t", << >>, << >> >> ELSE <<a.k, a.c, [i \in 1..Len(a.x) |-> Form(a.x[i])]>>
RECURSIVE Same(_, _)
Same(a, b) == a.k = b.k /\ (IF a.k = "t" THEN a.s = b.s /\ a.v = b.v ELSE a.c = b.c /\ \A i \in 1..Len(a.x) : Same(a.x[i], b.x[i]))
Along(t, a) == IF a >= 0 THEN a + 1 ELSE Len(t.s) + a + 1      \* 1-based; negative axes count from the end
Pairwise(a, b, f(_, _)) == LET lb == Leaves(b) IN MapLeaves(a, LAMBDA i, t : [t EXCEPT !.v = [j \in 1..Len(t.v) |-> f(t.v[j], lb[i].v[j])]])
All(a, f(_)) == MapLeaves(a, LAMBDA i, t : Each(t, f))
RECURSIVE Power(_, _)
Power(z, n) == IF n = 0 THEN One ELSE Mul(z, Power(z, n - 1))
RootOf(n) == CHOOSE r \in 0..n : r * r = n
(* four times the quotient, for divisors whose squared magnitude divides 4 times the numerator *)
Quotient4(a, b) == LET w == Mul(a, Conj(b)) IN <<(4 * w[1]) \div Sqr(b), (4 * w[2]) \div Sqr(b)>>
Cut(t, ax, from, len) == LET k == Along(t, ax) IN Build([t.s EXCEPT ![k] = len], LAMBDA ix : At(t, [ix EXCEPT ![k] = @ + from]))
Join2(a, b, ax) == LET k == Along(a, ax) IN
  Build([a.s EXCEPT ![k] = @ + b.s[k]], LAMBDA ix : IF ix[k] < a.s[k] THEN At(a, ix) ELSE At(b, [ix EXCEPT ![k] = @ - a.s[k]]))
RECURSIVE Joined(_, _)
Joined(ts, ax) == IF Len(ts) = 1 THEN ts[1] ELSE Join2(ts[1], Joined(Tail(ts), ax), ax)
Concat(trees, ax) == MapLeaves(trees[1], LAMBDA i, t : Joined([n \in 1..Len(trees) |-> Leaves(trees[n])[i]], ax))
Batch(a, size, idx, len, ax) == MapLeaves(a, LAMBDA i, t : Cut(t, ax, idx * size, len))
(* all whole pieces stacked along a new first axis *)
Pieces(a, size, ax) == MapLeaves(a, LAMBDA i, t :
  LET n == t.s[Along(t, ax)] \div size  one == [t.s EXCEPT ![Along(t, ax)] = size] IN
  Build(<<n>> \o one, LAMBDA ix : LET k == Along(t, ax) IN At(t, [Tail(ix) EXCEPT ![k] = @ + (ix[1] * size)])))
Left(a, size, ax) == MapLeaves(a, LAMBDA i, t : LET n == t.s[Along(t, ax)] IN Cut(t, ax, (n \div size) * size, n % size))
Remains(a, size, ax) == LET t == Leaves(a)[1] IN t.s[Along(t, ax)] % size # 0
(* shapes, at chosen axes: sel = [k |-> "all"] | [k |-> "some", a |-> axes] | [k |-> "from", a |-> first, b |-> last + 1 or -1] *)
At3(s, sel) == CASE sel.k = "all" -> s
                 [] sel.k = "some" -> [i \in 1..Len(sel.a) |-> s[IF sel.a[i] >= 0 THEN sel.a[i] + 1 ELSE Len(s) + sel.a[i] + 1]]
                 [] OTHER -> SubSeq(s, sel.a + 1, IF sel.b < 0 \/ sel.b > Len(s) THEN Len(s) ELSE sel.b)
ShapesAt(a, sel) == LET ls == Leaves(a) IN [i \in 1..Len(ls) |-> At3(ls[i].s, sel)]
Uniform(a, sel) == LET z == ShapesAt(a, sel) IN \A i \in 1..Len(z) : z[i] = z[1]
Perms(n) == {p \in [1..n -> 1..n] : \A i, j \in 1..n : i # j => p[i] # p[j]}
Moved(t, ax, p) == LET k == Along(t, ax) IN Build(t.s, LAMBDA ix : At(t, [ix EXCEPT ![k] = p[@ + 1] - 1]))
(* every vector along the axis has the same (distinct) entries *)
SameLines(t, u, ax) == LET k == Along(t, ax) IN
  /\ t.s = u.s
  /\ \A ix \in ToSet(Tuples([t.s EXCEPT ![k] = 1])) : {At(t, [ix EXCEPT ![k] = j]) : j \in 0..(t.s[k] - 1)} = {At(u, [ix EXCEPT ![k] = j]) : j \in 0..(t.s[k] - 1)}
=============================================================================
