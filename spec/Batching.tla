------------------------------ MODULE Batching ------------------------------
(* Prediction with a batch limit.  A data set is a sequence of sample numbers; every stateful module folds the numbers
   it sees, in order, into its state, and shows with each sample the state its batch started from.
   A call splits the data into consecutive batches no larger than the limit (0: one batch); each batch starts from the
   state the batch before it left.  The stored state changes only on request. *)
EXTENDS Integers, Sequences
Mod == 9973
Step(h, x) == (h * 5 + x) % Mod
RECURSIVE Fold(_, _)
Fold(h, s) == IF s = <<>> THEN h ELSE Fold(Step(h, s[1]), Tail(s))
Cap(n, mbs) == IF mbs = 0 \/ mbs > n THEN n ELSE mbs
(* starts[i] is the state the batch of sample i started from; some legal split explains it *)
RECURSIVE Explained(_, _, _, _)
Explained(ids, starts, h, cap) ==
  \/ ids = <<>>
  \/ \E k \in 1..(IF Len(ids) < cap THEN Len(ids) ELSE cap) :
       /\ \A j \in 1..k : starts[j] = h
       /\ Explained(SubSeq(ids, k + 1, Len(ids)), SubSeq(starts, k + 1, Len(starts)), Fold(h, SubSeq(ids, 1, k)), cap)
=============================================================================
