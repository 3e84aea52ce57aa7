------------------------------ MODULE Training ------------------------------
(* The training loop of pyPMM as a state machine over integers.

   The model under training is the "probe" model of the harness: one trainable number (clk),
   one piece of module state (stp: number of training batches seen).  With the optimizer set to
   b1 = b2 = eps = 0 one update moves clk by exactly the learning rate, so that the whole run is
   integer valued.  Validation losses are scripted: c.loss[k+1] is the loss of the k-th
   validation pass (k = 0: before the first epoch).  Losses are integers, min_delta (c.D) and
   target (c.T) are in half units so that off-boundary values can be expressed.

   One action per critical section of the implementation: validation batch, training batch,
   end-of-epoch decision, callback, return.                                                  *)
EXTENDS Integers, Sequences, FiniteSets

VARIABLES c,      \* configuration of the run (constant during a behaviour)
          ph,     \* phase: "val" | "train" | "cb" | "loop" | "done"
          k,      \* number of epochs completed
          seen,   \* samples already used in the current pass
          nbat,   \* number of batches of the current pass
          clk, stp, cnt,  \* parameter, module state, optimizer epoch counter
          pat,    \* patience left
          best,   \* snapshot [loss, clk, stp, cnt, k]
          hist,   \* history of snapshots, hist[j+1] after j epochs (auxiliary)
          killat  \* -1, or number of epochs begun when a signal arrived

vars == <<c, ph, k, seen, nbat, clk, stp, cnt, pat, best, hist, killat>>

Min2(a, b) == IF a < b THEN a ELSE b
BS(cc)  == Min2(cc.bs, cc.n)                                  \* batch size larger than the data: one batch
VBS(cc) == IF cc.vbs <= 0 THEN cc.nv ELSE Min2(cc.vbs, cc.nv) \* 0: whole validation set
CeilDiv(a, b) == (a + b - 1) \div b
NumBatches(cc)    == CeilDiv(cc.n, BS(cc))
NumValBatches(cc) == CeilDiv(cc.nv, VBS(cc))
Lr(cc, i) == IF cc.sched = 1 THEN i + 1 ELSE 1
CbShift(cc, e) == IF e + 1 <= Len(cc.cb) THEN cc.cb[e + 1] ELSE 0
LossAt(cc, j) == cc.loss[j + 1]

Snap(l) == [loss |-> l, clk |-> clk, stp |-> stp, cnt |-> cnt, k |-> k]
NoSnap  == [loss |-> 0, clk |-> 0, stp |-> 0, cnt |-> 0, k |-> -1]

StartOf(cfg) ==
  /\ c = cfg /\ ph = "val" /\ k = 0 /\ seen = {} /\ nbat = 0
  /\ clk = cfg.clk0 /\ stp = cfg.stp0 /\ cnt = cfg.cnt0 /\ pat = cfg.P
  /\ best = NoSnap /\ hist = << >> /\ killat = -1

(* -------- batches -------- *)
ValBatch(ids) ==
  /\ ph = "val"
  /\ ids # {} /\ ids \subseteq 1..c.nv /\ ids \cap seen = {}
  /\ Cardinality(ids) <= VBS(c)
  /\ c.nv - Cardinality(seen \cup ids) <= (NumValBatches(c) - nbat - 1) * VBS(c)
  /\ seen' = seen \cup ids /\ nbat' = nbat + 1
  /\ UNCHANGED <<killat, c, ph, k, clk, stp, cnt, pat, best, hist>>

TrainBatch(ids) ==
  /\ ph = "train"
  /\ ids # {} /\ ids \subseteq 1..c.n /\ ids \cap seen = {}
  /\ Cardinality(ids) <= BS(c)
  /\ c.n - Cardinality(seen \cup ids) <= (NumBatches(c) - nbat - 1) * BS(c)
  /\ seen' = seen \cup ids /\ nbat' = nbat + 1
  /\ clk' = clk + Lr(c, cnt) /\ stp' = stp + 1
  /\ UNCHANGED <<killat, c, ph, k, cnt, pat, best, hist>>

(* -------- end of the training pass: on to validation -------- *)
EndTrain ==
  /\ ph = "train" /\ seen = 1..c.n /\ nbat = NumBatches(c)
  /\ ph' = "val" /\ seen' = {} /\ nbat' = 0
  /\ cnt' = cnt + 1
  /\ k' = k + 1
  /\ UNCHANGED <<killat, c, clk, stp, pat, best, hist>>

(* -------- end of a validation pass: keep the best, count patience -------- *)
Improves(l)  == ~c.hasD \/ 2 * l <= 2 * best.loss - c.D
EndVal ==
  /\ ph = "val" /\ seen = 1..c.nv /\ nbat = NumValBatches(c)
  /\ LET l == LossAt(c, k) IN
     /\ best' = IF k = 0 \/ l < best.loss THEN Snap(l) ELSE best
     /\ pat'  = IF k = 0 THEN pat ELSE IF Improves(l) THEN c.P ELSE pat - 1
     /\ hist' = Append(hist, Snap(l))
  /\ ph' = IF k = 0 THEN "loop" ELSE "cb"
  /\ seen' = {} /\ nbat' = 0
  /\ UNCHANGED <<killat, c, k, clk, stp, cnt>>

(* -------- user callback after epoch number k-1 -------- *)
Callback ==
  /\ ph = "cb"
  /\ clk' = clk + CbShift(c, k - 1)
  /\ ph' = "loop"
  /\ UNCHANGED <<killat, c, k, seen, nbat, stp, cnt, pat, best, hist>>

(* -------- loop condition -------- *)
Begun == IF ph = "train" THEN k + 1 ELSE k
(* an interrupt or termination signal; only a verbose run listens *)
Signal ==
  /\ ph # "done" /\ killat = -1
  /\ killat' = IF c.verbose THEN Begun ELSE -1
  /\ UNCHANGED <<c, ph, k, seen, nbat, clk, stp, cnt, pat, best, hist>>
Killed == killat >= 0
Continue == /\ k < c.E
            /\ (c.hasT => 2 * best.loss > c.T)
            /\ pat > 0
            /\ ~Killed
NextEpoch ==
  /\ ph = "loop" /\ Continue
  /\ ph' = "train" /\ seen' = {} /\ nbat' = 0
  /\ UNCHANGED <<killat, c, k, clk, stp, cnt, pat, best, hist>>
Return ==
  /\ ph = "loop" /\ ~Continue
  /\ ph' = "done"
  /\ UNCHANGED <<killat, c, k, seen, nbat, clk, stp, cnt, pat, best, hist>>

(* -------- a whole epoch without looking at its batches (trace granularity of C01/C02) -------- *)
InitialValidation ==
  /\ ph = "val" /\ k = 0
  /\ best' = Snap(LossAt(c, 0)) /\ hist' = <<Snap(LossAt(c, 0))>>
  /\ ph' = "loop" /\ seen' = {} /\ nbat' = 0
  /\ UNCHANGED <<killat, c, k, clk, stp, cnt, pat>>
EpochAtomic ==
  /\ ph = "loop" /\ Continue
  /\ LET nb == NumBatches(c)
         l  == LossAt(c, k + 1)
         s  == [loss |-> l, clk |-> clk + nb * Lr(c, cnt), stp |-> stp + nb, cnt |-> cnt + 1, k |-> k + 1]
     IN /\ clk' = s.clk /\ stp' = s.stp /\ cnt' = s.cnt /\ k' = k + 1
        /\ best' = IF l < best.loss THEN s ELSE best
        /\ pat' = IF Improves(l) THEN c.P ELSE pat - 1
        /\ hist' = Append(hist, s)
  /\ ph' = "cb" /\ seen' = {} /\ nbat' = 0
  /\ UNCHANGED <<c, killat>>

(* ======================= properties ======================= *)
Losses == [j \in 1..Len(hist) |-> hist[j].loss]
(* C01: the snapshot handed back is the earliest minimum of everything seen *)
BestIsEarliestMin ==
  ph \in {"loop", "cb", "done", "train"} =>
     /\ best = hist[best.k + 1]
     /\ \A j \in 1..Len(hist) : hist[j].loss >= best.loss
     /\ \A j \in 1..best.k : hist[j].loss > best.loss

(* C02, declaratively: after k epochs the run must be over iff one of the rules says so, and no
   earlier epoch was already past the end *)
BestUpTo(j) == CHOOSE x \in {hist[i].loss : i \in 1..j} : \A i \in 1..j : hist[i].loss >= x
(* epoch number e (1-based count of completed epochs) was a success w.r.t. the best before it *)
Success(e) == ~c.hasD \/ 2 * hist[e + 1].loss <= 2 * BestUpTo(e) - c.D
Exhausted(e) == e >= c.P /\ \A i \in (e - c.P + 1)..e : ~Success(i)
Over(e) == \/ e >= c.E
           \/ (c.hasT /\ 2 * BestUpTo(e + 1) <= c.T)
           \/ Exhausted(e)
           \/ (killat >= 0 /\ e >= killat)
StopsExactly ==
  /\ ph = "done" => Over(k)
  /\ ph = "done" => \A e \in 0..(k - 1) : ~Over(e)
(* C03 *)
EpochUsesEverySampleOnce ==
  /\ ph = "train" => nbat <= NumBatches(c)
  /\ ph = "train" => stp = hist[Len(hist)].stp + nbat
ValPassPure == [][ph = "val" => (clk' = clk /\ stp' = stp)]_vars
=============================================================================
