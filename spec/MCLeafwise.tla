----------------------------- MODULE MCLeafwise -----------------------------
(* Laws of cutting, joining, splitting and shuffling on every small array and tree of two. *)
EXTENDS Leafwise, TLC
CONSTANTS Top
Numbered(s, z) == Build(s, LAMBDA ix : <<z + PosR(s, ix, 0), 0>>)
VARIABLES a, ax, size
vars == <<a, ax, size>>
Init == /\ \E n \in 1..Top, m, q \in 1..2 : \E first \in BOOLEAN :
             /\ a = Node("d", <<"p", "q">>, <<Numbered(IF first THEN <<n, m>> ELSE <<m, n>>, 0), Numbered(IF first THEN <<n, q, 2>> ELSE <<q, n>>, 50)>>)
             /\ ax \in (IF first THEN {0} ELSE {1, -1})
        /\ size \in 1..(Top + 1)
Next == UNCHANGED vars
N == LET t == Leaves(a)[1] IN t.s[Along(t, ax)]
CutJoin == \A k \in 1..(N - 1) : Same(a, Concat(<<Batch(a, 1, 0, k, ax), Batch(a, k, 1, N - k, ax)>>, ax))
SplitAll == LET n == N \div size  ps == [i \in 1..n |-> Batch(a, size, i - 1, size, ax)]
                back == ps \o (IF Remains(a, size, ax) THEN <<Left(a, size, ax)>> ELSE << >>) IN Same(a, Concat(back, ax))
PieceIs == \A i \in 1..(N \div size) : LET p == Leaves(Pieces(a, size, ax)) IN
            \A j \in 1..2 : Slice(p[j], i) = Leaves(Batch(a, size, i - 1, size, ax))[j]
Shuffle == \A p \in Perms(N) : \A t \in ToSet(Leaves(a)) : SameLines(t, Moved(t, ax, p), ax) /\ \E q \in Perms(N) : Moved(Moved(t, ax, p), ax, q) = t
Zips == Same(Pairwise(a, a, Sub), All(a, LAMBDA z : Zero)) /\ Same(Pairwise(a, a, Add), All(a, LAMBDA z : Scale(2, z)))
=============================================================================
