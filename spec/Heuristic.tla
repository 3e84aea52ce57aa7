----------------------------- MODULE Heuristic -----------------------------
(* The uncertainty heuristic of a calibrated model, on integers.
   The model: outputs are polynomials, sequences of terms [c, p, xs]: c * theta[p] (p = 0: no parameter) * product of x[i], i in xs.
   A configuration C:  theta, psel[p] (parameter counts), feats: input leaves [cat, at (positions), ins (input sensitivity), dist (distance)],
   train (samples, << >> if none given), nnq (quarters), unit[i] (entries are given in units of 1 / unit).  *)
EXTENDS Integers, Sequences, FiniteSets
Abs(a) == IF a < 0 THEN -a ELSE a
Lesser(a, b) == IF a < b THEN a ELSE b
RECURSIVE Total(_)
Total(s) == IF s = << >> THEN 0 ELSE Head(s) + Total(Tail(s))
RECURSIVE Times(_, _)
Times(x, is) == IF is = << >> THEN 1 ELSE x[Head(is)] * Times(x, Tail(is))
RECURSIVE Insert(_, _)
Insert(v, s) == IF s = << >> \/ v <= Head(s) THEN <<v>> \o s ELSE <<Head(s)>> \o Insert(v, Tail(s))
RECURSIVE Sort(_)
Sort(s) == IF s = << >> THEN << >> ELSE Insert(Head(s), Sort(Tail(s)))
(* four times the q/4 quantile, interpolated; twice the median; four times the median absolute deviation *)
Quarter(s, q) == LET z == Sort(s)  n == Len(z)  k == (q * (n - 1)) \div 4  r == (q * (n - 1)) % 4 IN
                 IF r = 0 THEN 4 * z[k + 1] ELSE ((4 - r) * z[k + 1]) + (r * z[k + 2])
Median2(s) == LET z == Sort(s)  n == Len(z) IN z[(n + 1) \div 2] + z[(n \div 2) + 1]
Mad4(s) == LET m == Median2(s) IN Median2([i \in 1..Len(s) |-> Abs((2 * s[i]) - m)])

Term(t, th, x) == t.c * (IF t.p = 0 THEN 1 ELSE th[t.p]) * Times(x, t.xs)
Value(f, th, x) == Total([k \in 1..Len(f) |-> Term(f[k], th, x)])
DTheta(f, p, x) == Total([k \in 1..Len(f) |-> IF f[k].p = p THEN f[k].c * Times(x, f[k].xs) ELSE 0])
Without(s, j) == SubSeq(s, 1, j - 1) \o SubSeq(s, j + 1, Len(s))
DX(f, i, th, x) ==
  Total([k \in 1..Len(f) |-> Total([j \in 1..Len(f[k].xs) |-> IF f[k].xs[j] = i THEN f[k].c * (IF f[k].p = 0 THEN 1 ELSE th[f[k].p]) * Times(x, Without(f[k].xs, j)) ELSE 0])])
Sq(a) == a * a
(* parameters: sum of squares of gradient times parameter, over the chosen ones; to be divided by their number *)
Chosen(C) == {p \in 1..Len(C.theta) : C.psel[p]}
SParam(C, f, x) == Total([p \in 1..Len(C.theta) |-> IF C.psel[p] THEN Sq(DTheta(f, p, x) * C.theta[p]) ELSE 0])
(* inputs: 16 times the sum of squares of gradient times interquartile range of the training data (and times uncertainty) *)
Range(s) == {s[i] : i \in 1..Len(s)}
Smooth(C) == UNION {Range(C.feats[k].at) : k \in {k \in 1..Len(C.feats) : ~C.feats[k].cat /\ C.feats[k].ins}}
Column(d, i) == [n \in 1..Len(d) |-> d[n][i]]
Iqr4(C, i) == Quarter(Column(C.train, i), 3) - Quarter(Column(C.train, i), 1)
SInput(C, f, x, unc) == Total([i \in 1..Len(x) |-> IF i \in Smooth(C) THEN Sq(DX(f, i, C.theta, x)) * (Sq(Iqr4(C, i)) + (16 * Sq(IF unc = << >> THEN 0 ELSE unc[i]))) ELSE 0])
(* distances in eighths: continuous entries relative to the range of the training data, a categorical leaf matches or not *)
Spread(C, i) == LET z == Sort(Column(C.train, i))  r == z[Len(z)] - z[1] IN IF r = 0 THEN C.unit[i] ELSE r
LeafDist(C, F, x, y) ==
  IF ~F.dist THEN 0
  ELSE IF F.cat THEN (IF \A i \in Range(F.at) : x[i] = y[i] THEN 0 ELSE 8)
  ELSE Total([k \in 1..Len(F.at) |-> (Abs(x[F.at[k]] - y[F.at[k]]) * 8) \div Spread(C, F.at[k])])
Dist(C, x, y) == Total([k \in 1..Len(C.feats) |-> LeafDist(C, C.feats[k], x, y)])
(* training points that differ in what the distance sees *)
SeenBy(C, x) == [k \in 1..Len(C.feats) |-> IF C.feats[k].dist THEN [j \in 1..Len(C.feats[k].at) |-> x[C.feats[k].at[j]]] ELSE << >>]
RECURSIVE Distinct(_, _)
Distinct(C, s) == IF s = << >> THEN << >> ELSE LET r == Distinct(C, Tail(s)) IN IF \E k \in 1..Len(r) : SeenBy(C, r[k]) = SeenBy(C, Head(s)) THEN r ELSE <<Head(s)>> \o r
Min(S) == CHOOSE v \in S : \A w \in S : v <= w
Cut4(C) == LET P == Distinct(C, C.train) IN                                  \* four times the cutoff
  Quarter([i \in 1..Len(P) |-> Min({Dist(C, P[i], P[j]) : j \in (1..Len(P)) \ {i}})], C.nnq)
Width(C) == Total([k \in 1..Len(C.feats) |-> IF ~C.feats[k].dist THEN 0 ELSE IF C.feats[k].cat THEN 1 ELSE Len(C.feats[k].at)])
(* mean distance to the training points within the cutoff, of the nearest if none is: <<sum, count>> *)
Near(C, x) == LET P == Distinct(C, C.train)
                  ds == [i \in 1..Len(P) |-> Dist(C, x, P[i])]
                  cut == Cut4(C)
                  in == {i \in 1..Len(P) : 4 * ds[i] <= cut}
              IN  IF in = {} THEN <<Min(Range(ds)), 1>> ELSE <<Total([i \in 1..Len(P) |-> IF i \in in THEN ds[i] ELSE 0]), Cardinality(in)>>
Rounded(a, b) == ((2 * a) + b) \div (2 * b)
SDist(C, x) == LET n == Near(C, x) IN Rounded(n[1] * 2048, n[2])             \* in 1/16384
(* twice the correction of a prediction: the median residual of the samples in the same stratum *)
Bias2(mode, at, X, R, x) ==
  LET K == CASE mode = "none" -> {} [] mode = "all" -> 1..Len(X)
             [] OTHER -> {k \in 1..Len(X) : \A i \in Range(at) : X[k][i] = x[i]}
      rs == SelectSeq([k \in 1..Len(X) |-> <<k, R[k]>>], LAMBDA e : e[1] \in K)
  IN IF rs = << >> THEN 0 ELSE Median2([k \in 1..Len(rs) |-> rs[k][2]])
=============================================================================
