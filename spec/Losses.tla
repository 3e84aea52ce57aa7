------------------------------- MODULE Losses -------------------------------
(* The named losses, in units of 1/Q.  A case is a record
     P, Y, U : samples -> entries -> <<re, im>> (U: positive integers); all leaves of a sample one after the other
     loss    : name,  h : twice delta (pseudo_huber)
   Every loss is an average over samples and entries of a term; the loss of a validation pass is the average over its
   batches; the update of one batch follows the derivative of the loss of that batch. *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt
Q == 4096
Abs(x) == IF x < 0 THEN -x ELSE x
Sgn(x) == IF x < 0 THEN -1 ELSE IF x > 0 THEN 1 ELSE 0
RECURSIVE Root(_, _, _)
Root(x, lo, hi) == IF hi - lo <= 1 THEN lo ELSE LET m == (lo + hi) \div 2 IN IF m * m <= x THEN Root(x, m, hi) ELSE Root(x, lo, m)
ISqrt(x) == Root(x, 0, 46340)           \* largest r with r*r <= x < 2^31 (46340 excluded)
RootQ(x) == IF x < 120 THEN ISqrt(x * 16777216) ELSE IF x < 2000 THEN 4 * ISqrt(x * 1048576) ELSE 16 * ISqrt(x * 65536)   \* Q * sqrt(x)
Div(a, b) == IF a >= 0 THEN a \div b ELSE -((-a) \div b)
Sq(d) == d[1] * d[1] + d[2] * d[2]
Len2(d) == IF d[2] = 0 THEN Abs(d[1]) * Q ELSE RootQ(Sq(d))
Base(c) == IF c.loss \in {"mse", "mse_unc", "mse_unsupervised"} THEN "mse"
           ELSE IF c.loss \in {"mae", "mae_unc", "mae_unsupervised"} THEN "mae"
           ELSE IF c.loss \in {"mre", "mre_unc", "mre_unsupervised"} THEN "mre"
           ELSE IF c.loss \in {"mrd", "mrd_unc"} THEN "mrd" ELSE "huber"
Unc(c) == c.loss \in {"mse_unc", "mae_unc", "mre_unc", "mrd_unc"}
Term(c, i, e) ==
  LET p == c.P[i][e] y == c.Y[i][e] u == IF Unc(c) THEN c.U[i][e] ELSE 1
      d == <<p[1] - y[1], p[2] - y[2]>> IN
  CASE Base(c) = "mse" -> (Sq(d) * Q) \div (u * u)
    [] Base(c) = "mae" -> Len2(d) \div u
    [] Base(c) = "mre" -> ((Abs(d[1]) * Q * 10000) \div Abs(10000 * y[1] + 1)) \div u
    [] Base(c) = "mrd" -> ((Abs(d[1]) * Q * 10000) \div Abs(20000 * (y[1] + p[1]) + 1)) \div u
    [] OTHER -> (c.h * (RootQ(c.h * c.h + 4 * Sq(d)) - c.h * Q)) \div 4
Entries(c) == Len(c.P[1])
Samples(c) == 1..Len(c.P)
OfSample(c) == [i \in Samples(c) |-> MapThenSumSet(LAMBDA e : Term(c, i, e), 1..Entries(c))]
SumOver(f, S) == MapThenSumSet(LAMBDA i : f[i], S)
Mean(c, f, S) == SumOver(f, S) \div (Cardinality(S) * Entries(c))
Full(c) == Mean(c, OfSample(c), Samples(c))
(* what a validation pass with batches of v can yield: depends on which samples are left over *)
Pass(c, v) ==
  LET n == Len(c.P) f == OfSample(c) IN
  IF v <= 0 \/ v >= n \/ n % v = 0 THEN {Mean(c, f, Samples(c))}
  ELSE LET r == n % v k == n \div v IN
       {(k * Mean(c, f, Samples(c) \ R) + Mean(c, f, R)) \div (k + 1) : R \in {S \in SUBSET Samples(c) : Cardinality(S) = r}}
(* derivative by the prediction (real), in a batch of b samples *)
Slope(c, i, e, b) ==
  LET p == c.P[i][e][1] y == c.Y[i][e][1] u == IF Unc(c) THEN c.U[i][e] ELSE 1
      d == p - y  n == b * Entries(c) IN
  CASE Base(c) = "mse" -> Div(2 * d * Q, u * u * n)
    [] Base(c) = "mae" -> Div(Sgn(d) * Q, u * n)
    [] Base(c) = "mre" -> Div(Div(Sgn(d) * Q * 10000, Abs(10000 * y + 1)), u * n)
    [] OTHER -> Div(Div(d * c.h * Q * 64, RootQ(c.h * c.h + 4 * d * d) \div 64), n)
Near(a, b) == Abs(a - b) <= 4 + Abs(b) \div 256
=============================================================================
