------------------------------ MODULE MCEigen ------------------------------
(* Requests made one after the other of every small spectrum: what the rules promise each other. *)
EXTENDS Eigen
CONSTANTS MaxN, MaxV
VARIABLES s, k, end, by
mcv == <<s, k, end, by>>
Init == /\ s \in UNION {[1..n -> (-MaxV)..MaxV] : n \in 1..MaxN} /\ k = 1 /\ end = "S" /\ by = "A"
Next == UNCHANGED s /\ k' \in 1..Len(s) /\ end' \in {"S", "L", "E", "I"} /\ by' \in {"A", "M"}
W == Wanted(end, by, s, k)
Places0 == Places(end, Len(s), k)
InRange == \A i \in 1..k : Places0[i] \in 1..Len(s)
Once == \A i, j \in 1..k : i < j => Places0[i] < Places0[j]           \* each place once, ascending
All == k = Len(s) => W = Keys(by, s)                                   \* all of them, whatever the end
Ends == LET ks == Keys(by, s) n == Len(s) IN
        /\ end = "S" => \A i \in 1..k : \A j \in (k + 1)..n : W[i] <= ks[j]
        /\ end = "L" => \A i \in 1..k : \A j \in 1..(n - k) : W[i] >= ks[j]
        /\ end = "I" => LET lo == Places0[1] - 1 hi == n - Places0[k] IN lo - hi \in -1..1   \* the middle
        /\ end = "E" => LET lo == Low(k) hi == k - Low(k) IN hi - lo \in 0..1
(* exterior and smallest/largest agree on their shares *)
Shares == end = "E" => W = [i \in 1..k |-> IF i <= Low(k) THEN Wanted("S", by, s, Low(k))[i] ELSE Wanted("L", by, s, k - Low(k))[i - Low(k)]]
(* negating the matrix turns smallest into largest *)
Mirror == (by = "A" /\ end = "S") => LET r == Wanted("L", by, [i \in 1..Len(s) |-> -s[i]], k) IN \A i \in 1..k : W[i] = -r[k + 1 - i]
(* magnitude and value agree on non-negative spectra *)
Pos == (\A i \in 1..Len(s) : s[i] >= 0) => W = Wanted(end, "A", s, k)
(* the relation admits exactly the multiset for distinct keys *)
Tight == LET ks == Keys(by, s) IN (by = "A") => Right(end, by, s, k, W)
=============================================================================
