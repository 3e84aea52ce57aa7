------------------------------ MODULE Conformal ------------------------------
(* Conformalized models.  An object holds the scores of its calibration set (a sorted sequence; for
   the abstract objects of the trace module just the name of the calibration) and a cache of the
   quantiles requested so far.  Levels are integers, in thousandths: level 100 is miscoverage 0.1. *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Least(S) == CHOOSE x \in S : \A y \in S : x <= y
Biggest(S) == CHOOSE x \in S : \A y \in S : x >= y
Ceil(a, b) == (a + b - 1) \div b
(* number of calibration samples an interval of level a has to cover, of n *)
Need(n, a) == Ceil((n + 1) * (1000 - a), 1000)
Rank(n, a) == IF Need(n, a) > n THEN n ELSE Need(n, a)
(* n times the score quantile of level a of the sorted scores s: the empirical (Rank/n)-quantile,
   interpolated between neighbours *)
NQ(s, a) == LET n == Len(s)
                k == Rank(n, a)
            IN  IF k = n THEN n * s[n] ELSE n * s[k] + (n - k) * (s[k + 1] - s[k])
(* scores covered by a quantile nq / n *)
Covered(s, nq) == Cardinality({i \in 1..Len(s) : Len(s) * s[i] <= nq})
Sorted(s) == \A i \in 1..(Len(s) - 1) : s[i] <= s[i + 1]

(* insertion sort, for scores that come unsorted *)
RECURSIVE Insert(_, _)
Insert(x, s) == IF s = <<>> \/ x <= Head(s) THEN <<x>> \o s ELSE <<Head(s)>> \o Insert(x, Tail(s))
RECURSIVE Sort(_)
Sort(s) == IF s = <<>> THEN <<>> ELSE Insert(Head(s), Sort(Tail(s)))
=============================================================================
