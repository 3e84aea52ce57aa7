------------------------------- MODULE Eigen -------------------------------
(* Selection of eigenpairs.  A spectrum is a sequence of integers (with multiplicity, in no particular order);
   a rule is a pair of which end ("S" smallest, "L" largest, "E" exterior, "I" interior) and by what
   ("A" algebraic value, "M" magnitude).  Where the rule ranks two eigenvalues alike (equal values, or opposite
   values by magnitude) either order is correct, so an answer is judged by a relation. *)
EXTENDS Integers, Sequences, FiniteSets
Abs(x) == IF x < 0 THEN -x ELSE x
Key(by, x) == IF by = "M" THEN Abs(x) ELSE x
Count(s, v) == Cardinality({i \in 1..Len(s) : s[i] = v})
RECURSIVE Insert(_, _)
Insert(s, x) == IF s = <<>> THEN <<x>> ELSE IF x <= s[1] THEN <<x>> \o s ELSE <<s[1]>> \o Insert(Tail(s), x)
RECURSIVE Sort(_)
Sort(s) == IF s = <<>> THEN <<>> ELSE Insert(Sort(Tail(s)), s[1])
(* places (in ascending order of the key) that a request for k of n takes *)
Low(k) == k \div 2
Places(end, n, k) ==
  CASE end = "S" -> [i \in 1..k |-> i]
    [] end = "L" -> [i \in 1..k |-> n - k + i]
    [] end = "E" -> [i \in 1..k |-> IF i <= Low(k) THEN i ELSE n - k + i]
    [] end = "I" -> [i \in 1..k |-> n \div 2 - Low(k) + i]
Keys(by, s) == Sort([i \in 1..Len(s) |-> Key(by, s[i])])
Wanted(end, by, s, k) == LET ks == Keys(by, s) IN [i \in 1..k |-> ks[Places(end, Len(s), k)[i]]]
(* the answer r is k eigenvalues of s, no more often than s has them, ranked as the rule says *)
Right(end, by, s, k, r) ==
  /\ Len(r) = k
  /\ \A i \in 1..k : Count(r, r[i]) <= Count(s, r[i])
  /\ [i \in 1..k |-> Key(by, r[i])] = Wanted(end, by, s, k)
Refused(sizes, k) == \E i \in 1..Len(sizes) : k > sizes[i]
=============================================================================
