----------------------------- MODULE MCBatching -----------------------------
(* One model called again and again with any data, limit and options; batch by batch. *)
EXTENDS Batching, FiniteSets, TLC, Json
CONSTANTS Depth, MaxN, Free, Greedy
Ids == 1..3
VARIABLES st, run, par, hist
mcv == <<st, run, par, hist>>
Idle == [on |-> FALSE]
Init == st = 0 /\ run = Idle /\ par = 0 /\ hist = <<>>
Call(n, mbs, upd, av) ==
  /\ ~run.on /\ Len(hist) < Depth
  /\ \E ids \in IF ~Free THEN {[i \in 1..n |-> i]} ELSE [1..n -> Ids] :
       run' = [on |-> TRUE, ids |-> ids, left |-> ids, cap |-> Cap(n, mbs), h |-> st, starts |-> <<>>, outs |-> <<>>, upd |-> upd]
  /\ hist' = Append(hist, [op |-> "call", n |-> n, mbs |-> mbs, upd |-> upd, av |-> av])
  /\ UNCHANGED <<st, par>>
Batch == /\ run.on /\ run.left # <<>>
         /\ \E k \in LET m == IF Len(run.left) < run.cap THEN Len(run.left) ELSE run.cap IN IF Greedy THEN {m} ELSE 1..m :
              LET b == SubSeq(run.left, 1, k) IN
              run' = [run EXCEPT !.left = SubSeq(@, k + 1, Len(@)), !.h = Fold(run.h, b),
                                 !.starts = @ \o [j \in 1..k |-> run.h], !.outs = @ \o [j \in 1..k |-> <<b[j], par>>]]
         /\ UNCHANGED <<st, par, hist>>
Done == /\ run.on /\ run.left = <<>>
        /\ st' = IF run.upd THEN run.h ELSE st
        /\ run' = Idle /\ UNCHANGED <<par, hist>>
Assign == /\ ~run.on /\ Len(hist) < Depth /\ Len(hist) > 0 /\ hist[Len(hist)].op # "set" /\ par' = 1 - par
          /\ hist' = Append(hist, [op |-> "set"]) /\ UNCHANGED <<st, run>>
Next == Batch \/ Done \/ Assign \/ \E n \in 1..MaxN, mbs \in 0..MaxN, upd \in BOOLEAN, av \in BOOLEAN : Call(n, mbs, upd, av)
(* whatever the split: every sample once and in order, the final state that of one pass *)
AtEnd == run.on /\ run.left = <<>>
InOrder == AtEnd => [i \in 1..Len(run.outs) |-> run.outs[i][1]] = run.ids
OnePass == AtEnd => run.h = Fold(st, run.ids)
Relation == AtEnd => Explained(run.ids, run.starts, st, run.cap)
OnlyAsked == [][st' # st => run.upd]_mcv
Dump == (Len(hist) = Depth /\ ~run.on) => PrintT(<<"BEH", ToJson(hist)>>)
=============================================================================
