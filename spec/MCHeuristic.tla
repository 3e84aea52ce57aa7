---------------------------- MODULE MCHeuristic ----------------------------
(* Laws of the heuristic on all small training sets and points: two features, the second continuous or categorical. *)
EXTENDS Heuristic, TLC
CONSTANTS Top, Size
Values == 0..Top
Points == Values \X Values
VARIABLES C, x
vars == <<C, x>>
Train == UNION {[1..n -> Points] : n \in {Size}}
Make(tr, cat, d2, q, th) == [theta |-> th, psel |-> <<TRUE, FALSE>>, train |-> tr, nnq |-> q, unit |-> <<1, 1>>,
   feats |-> <<[cat |-> FALSE, at |-> <<1>>, ins |-> TRUE, dist |-> TRUE], [cat |-> cat, at |-> <<2>>, ins |-> TRUE, dist |-> d2]>>]
Init == /\ \E tr \in Train, cat \in BOOLEAN, d2 \in BOOLEAN, q \in {0, 2, 4} : C = Make(tr, cat, d2, q, <<2, 3>>)
        /\ \A i \in 1..2 : Spread(C, i) \in {1, 2, 4, 8}
        /\ Len(Distinct(C, C.train)) > 1
        /\ x \in Points
Next == UNCHANGED vars
F == <<[c |-> 1, p |-> 1, xs |-> <<1, 2>>], [c |-> 2, p |-> 2, xs |-> <<2>>], [c |-> 1, p |-> 0, xs |-> <<1, 1>>]>>
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
Order == LET D == [C EXCEPT !.train = Rev(@)] IN SDist(D, x) = SDist(C, x) /\ SInput(D, F, x, << >>) = SInput(C, F, x, << >>)
Copies == LET D == [C EXCEPT !.train = @ \o @] IN SDist(D, x) = SDist(C, x)                      \* repeated training points count once
Least == LET n == Near(C, x) IN n[1] >= n[2] * Min({Dist(C, x, C.train[i]) : i \in 1..Len(C.train)})
Far == \A i \in 1..Len(C.train) : Dist(C, x, C.train[i]) <= 8 * Width(C) \/ \E j \in 1..2 : \A k \in 1..Len(C.train) : C.train[k][j] < x[j] \/ C.train[k][j] > x[j]
Shift == LET m(p) == <<p[1] + 3, p[2] + 5>>  D == [C EXCEPT !.train = [i \in 1..Len(@) |-> m(@[i])]] IN SDist(D, m(x)) = SDist(C, x)
Wider == C.nnq = 4 \/ Cut4(C) <= Cut4([C EXCEPT !.nnq = 4])
Discrete == \A i \in 1..2 : Cardinality(Range(Column(C.train, i))) = 1 => Iqr4(C, i) = 0
Unit == SInput(C, F, x, <<1, 1>>) >= SInput(C, F, x, << >>)
Slope == DX(F, 2, C.theta, x) = Value(F, C.theta, <<x[1], x[2] + 1>>) - Value(F, C.theta, x)   \* linear in the second input
SlopeP == DTheta(F, 1, x) = Value(F, <<C.theta[1] + 1, C.theta[2]>>, x) - Value(F, C.theta, x)
MadLaws == LET s == Column(C.train, 1) IN Mad4([i \in 1..Len(s) |-> (2 * s[i]) + 7]) = 2 * Mad4(s) /\ Mad4([i \in 1..Len(s) |-> -s[i]]) = Mad4(s)
=============================================================================
