---------------------------- MODULE MCLifecycle ----------------------------
EXTENDS Lifecycle, TLC, Json
CONSTANTS Depth, MaxK
VARIABLES ops
mcvars == <<lvars, ops>>
Groups(k) == {{j} : j \in 1..k} \cup {1..k} \cup (IF k >= 2 THEN {{k - 1, k}} ELSE {})
Init == \E k \in 2..MaxK, hp \in {<<TRUE, TRUE, TRUE>>, <<TRUE, FALSE, TRUE>>} :
          /\ Start(k, TRUE, [j \in 1..k |-> hp[j]], [j \in 1..k |-> 0], [j \in 1..k |-> TRUE], 0)
          /\ ops = << >>
Log(o) == ops' = Append(ops, o)
Next ==
  /\ Len(ops) < Depth
  /\ \/ \E ls \in Groups(K), v \in BOOLEAN :
          /\ SetFlag(ls, v) /\ flag' # flag
          /\ Log([op |-> "flag", ls |-> ls, v |-> v])
     \/ \E r \in BOOLEAN, nb \in 1..2, b \in 0..2, e \in {0, 1} :
          /\ (b = 0 => e = 1) /\ Train(r, nb, b)
          /\ Log([op |-> "train", resume |-> r, nb |-> nb, best |-> b, E |-> b + e])
     \/ /\ Assign([j \in Leaves |-> 10 * Len(ops) + j]) /\ Log([op |-> "set", v |-> [j \in Leaves |-> 10 * Len(ops) + j]])
     \/ /\ Reload /\ opt /\ Log([op |-> "reload"])
     \/ /\ Clone /\ opt /\ Log([op |-> "clone"])
Spec == Init /\ [][Next]_mcvars
(* resumed in two parts = trained in one go (terms and values) *)
SplitLaw ==
  \A nb \in 1..2, a \in 0..2, b \in 0..2 :
    LET one(j) == After(j, val[j], term[j], hist[j], stp, [i \in 1..(a + b) |-> nb])
        p(j)   == After(j, val[j], term[j], hist[j], stp, [i \in 1..a |-> nb])
        two(j) == After(j, p(j).v, p(j).t, p(j).h, stp + nb * a, [i \in 1..b |-> nb])
    IN \A j \in Leaves : one(j) = two(j)
Dump == Len(ops) = Depth => PrintT(<<"BEH", ToJson([K |-> K, hasp |-> hasp, ops |-> ops])>>)
=============================================================================
