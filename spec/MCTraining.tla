---------------------------- MODULE MCTraining ----------------------------
(* Exhaustive exploration of Training: every batch layout, every loss history, every stopping
   configuration within the bounds.  Losses are chosen nondeterministically up front.        *)
EXTENDS Training, TLC, Json
CONSTANTS MaxN, MaxE, MaxLoss, MaxP, Mode  \* Mode "batch": batch-level steps, "epoch": atomic epochs

Seqs(S, n) == [1..n -> S]
BatchCfgs ==
  { [n |-> n, bs |-> bs, nv |-> nv, vbs |-> vbs, E |-> e, P |-> 2, D |-> 0, hasD |-> TRUE, T |-> 0,
     hasT |-> FALSE, cb |-> <<1>>, loss |-> l, sched |-> 1, clk0 |-> 0, stp0 |-> 0, cnt0 |-> 0, verbose |-> FALSE]
    : n \in 1..MaxN, bs \in 1..(MaxN + 1), nv \in 1..2, vbs \in 0..2, e \in 0..MaxE,
      l \in Seqs(0..MaxLoss, MaxE + 1) }
EpochCfgs ==
  { [n |-> 2, bs |-> 1, nv |-> 1, vbs |-> 0, E |-> e, P |-> p, D |-> d, hasD |-> hd, T |-> t,
     hasT |-> ht, cb |-> cb, loss |-> l, sched |-> 0, clk0 |-> 0, stp0 |-> 0, cnt0 |-> 0, verbose |-> vb]
    : e \in 0..MaxE, p \in 1..MaxP, d \in {0, 1, 2}, hd \in BOOLEAN, t \in {0, 1, 2}, ht \in BOOLEAN,
      cb \in {<< >>, <<5, 0, 3>>}, l \in Seqs(0..MaxLoss, MaxE + 1), vb \in BOOLEAN }
Cfgs == IF Mode = "batch" THEN BatchCfgs ELSE { x \in EpochCfgs : (~x.hasD => x.D = 0) /\ (~x.hasT => x.T = 0) }

Init == \E cfg \in Cfgs : StartOf(cfg)
Next == IF Mode = "batch"
        THEN \/ \E ids \in SUBSET (1..c.nv) : ValBatch(ids)
             \/ \E ids \in SUBSET (1..c.n) : TrainBatch(ids)
             \/ EndTrain \/ EndVal \/ Callback \/ NextEpoch \/ Return
        ELSE InitialValidation \/ EpochAtomic \/ Callback \/ Return \/ (c.verbose /\ Signal)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
(* batch-level: a pass may wedge if batches are cut too small; only maximal layouts are complete.
   Completed passes always use everything exactly once (EndTrain/EndVal guards); here we also
   check that the greedy layout always completes. *)
Terminates == <>(ph = "done")
(* behaviours for replay: every terminal state is printed as its scenario *)
Dump == ph = "done" => PrintT(<<"BEH", ToJson([cfg |-> c, killat |-> killat, epochs |-> k, best |-> best])>>)
=============================================================================
