------------------------------- MODULE Scalers -------------------------------
(* Scalers.  A column is a sequence of integers (the values of one component over the samples); the
   meaning of a scaler is a rational function of one value and the column it was fitted on.
   Rationals are pairs <<num, den>>, den > 0.  Options of one component:
     [k |-> "none"]                        left alone
     [k |-> "std"]                         (x - mean) / deviation, deviation 1 if there is none
     [k |-> "mm", lo, hi]                  range of the data mapped to lo..hi; a constant maps to lo
     [k |-> "rob", ql, qh, c, s]           percent quantiles, centred and/or scaled
     [k |-> "hot"]                         one-hot over the rows seen (rows, not components)            *)
EXTENDS Integers, Sequences, FiniteSets, TLC

RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
Squares(s) == [i \in 1..Len(s) |-> s[i] * s[i]]
RECURSIVE Insert(_, _)
Insert(x, s) == IF s = <<>> \/ x <= Head(s) THEN <<x>> \o s ELSE <<Head(s)>> \o Insert(x, Tail(s))
RECURSIVE Sort(_)
Sort(s) == IF s = <<>> THEN <<>> ELSE Insert(Head(s), Sort(Tail(s)))
RECURSIVE RootFrom(_, _)
RootFrom(v, r) == IF r * r >= v THEN r ELSE RootFrom(v, r + 1)
Root(v) == RootFrom(v, 0)
Perfect(v) == Root(v) * Root(v) = v

(* n^2 times the variance *)
Spread(col) == Len(col) * Sum(Squares(col)) - Sum(col) * Sum(col)
(* 100 times the q-percent quantile of a sorted column, interpolated *)
Quant(srt, q) == LET p == (Len(srt) - 1) * q
                     i == p \div 100
                     f == p % 100
                 IN  100 * srt[i + 1] + (IF f = 0 THEN 0 ELSE f * (srt[i + 2] - srt[i + 1]))
Median2(srt) == LET n == Len(srt) IN IF n % 2 = 1 THEN 2 * srt[(n + 1) \div 2] ELSE srt[n \div 2] + srt[n \div 2 + 1]
Norm(r) == IF r[2] < 0 THEN <<-r[1], -r[2]>> ELSE r

(* centre and scale of an affine scaler as rationals; `one` of the integers make up 1: y = (x - centre) / scale + shift *)
Affine(o, col, one) ==
  LET n == Len(col)
      srt == Sort(col)
      mn == srt[1]
      mx == srt[n]
  IN CASE o.k = "std" -> [c |-> <<Sum(col), n>>, s |-> IF Spread(col) = 0 THEN <<one, 1>> ELSE <<Root(Spread(col)), n>>, t |-> 0]
       [] o.k = "mm"  -> [c |-> <<mn, 1>>, s |-> <<IF mx = mn THEN one ELSE mx - mn, o.hi - o.lo>>, t |-> o.lo]
       [] o.k = "rob" -> [c |-> IF o.c THEN <<Median2(srt), 2>> ELSE <<0, 1>>,
                          s |-> IF o.s /\ Quant(srt, o.qh) # Quant(srt, o.ql) THEN <<Quant(srt, o.qh) - Quant(srt, o.ql), 100>> ELSE <<one, 1>>, t |-> 0]
       [] OTHER -> [c |-> <<0, 1>>, s |-> <<one, 1>>, t |-> 0]
(* the transform of x: ((x - c) / s) + t *)
Tf(o, col, one, x) == LET a == Affine(o, col, one)
                     num == (x * a.c[2] - a.c[1]) * a.s[2]
                     den == a.c[2] * a.s[1]
                     r == Norm(<<num, den>>)
                 IN  <<r[1] + a.t * r[2], r[2]>>
(* the inverse transform of a rational y *)
Inv(o, col, one, y) == LET a == Affine(o, col, one)
                      z == <<y[1] - a.t * y[2], y[2]>>
                      w == Norm(<<z[1] * a.s[1], z[2] * a.s[2]>>)
                  IN  <<w[1] * a.c[2] + a.c[1] * w[2], w[2] * a.c[2]>>
Is(r, x) == r[1] = x * r[2]

(* one-hot: position of a row among the distinct rows seen, in lexicographic order *)
RECURSIVE Less(_, _)
Less(a, b) == IF a = <<>> THEN FALSE ELSE Head(a) < Head(b) \/ (Head(a) = Head(b) /\ Less(Tail(a), Tail(b)))
RowsOf(leaf) == {leaf[i] : i \in 1..Len(leaf)}
Width(leaf) == Cardinality(RowsOf(leaf))
Place(leaf, row) == Cardinality({r \in RowsOf(leaf) : Less(r, row)}) + 1
Hot(leaf, row) == [j \in 1..Width(leaf) |-> IF row \in RowsOf(leaf) /\ Place(leaf, row) = j THEN 1 ELSE 0]
Column(leaf, j) == [i \in 1..Len(leaf) |-> leaf[i][j]]
=============================================================================
