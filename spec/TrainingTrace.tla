-------------------------- MODULE TrainingTrace --------------------------
(* Validates recorded training runs against Training.  One line of the trace file is one run
   (or a chain of runs on the same model): [cfg |-> ..., ev |-> <<events>>].
   Events:  cb   epoch clk            the user callback was called
            ret  clk stp              training returned, values read through the public API
            cls  id                   bit pattern class of everything observable of the model
            train/val x y u clk stp mode ep   one call of the (validation) loss function
            refused / exc             the call raised
            disp / after  int term    signal dispositions the process set / has after the run
            sig  own                  a signal was sent (before the next event); quiet runs take no note
            poke own                  a signal was sent between runs
   Every trace gets a verdict.                                                               *)
EXTENDS Training, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l, bad, run, snaps, disp
tvars == <<vars, tid, l, bad, run, snaps, disp>>

Ev == Traces[tid].ev
Runs == Traces[tid].runs            \* sequence of configurations, one per training call
E == Ev[l]
More == l <= Len(Ev)
Is(e) == More /\ E.e = e

AtRun(r) == Runs[r]
TraceInit ==
  /\ tid \in 1..Len(Traces) /\ l = 1 /\ bad = "" /\ run = 1 /\ snaps = {} /\ disp = [int |-> "", term |-> ""]
  /\ StartOf(Runs[1])

Reject(why) == /\ bad' = why /\ PrintT(<<"REJECT", tid, l, why>>)
               /\ UNCHANGED <<vars, tid, l, run, snaps, disp>>
Advance == l' = l + 1 /\ UNCHANGED <<tid, bad>>

(* ---- silent steps, each bounded by the configuration ---- *)
Silent ==
  \/ /\ ~c.batches /\ InitialValidation /\ UNCHANGED <<tid, l, bad, run, snaps, disp>>
  \/ /\ ~c.batches /\ EpochAtomic /\ UNCHANGED <<tid, l, bad, run, snaps, disp>>
  \/ /\ c.batches /\ (EndTrain \/ EndVal \/ NextEpoch) /\ UNCHANGED <<tid, l, bad, run, snaps, disp>>
  \/ /\ ~c.hascb /\ Callback /\ UNCHANGED <<tid, l, bad, run, snaps, disp>>
SilentEnabled ==
  \/ ~c.batches /\ ((ph = "val" /\ k = 0) \/ (ph = "loop" /\ Continue))
  \/ c.batches /\ \/ ph = "train" /\ seen = 1..c.n /\ nbat = NumBatches(c)
                  \/ ph = "val" /\ seen = 1..c.nv /\ nbat = NumValBatches(c)
                  \/ ph = "loop" /\ Continue
  \/ ~c.hascb /\ ph = "cb"

Set(s) == {s[i] : i \in 1..Len(s)}
NoDup(s) == Cardinality(Set(s)) = Len(s)
AllEq(ss, s) == \A i \in 1..Len(ss) : ss[i] = s

TrainEv ==
  IF ph # "train" THEN Reject("a training batch outside a training pass (or beyond the last epoch)")
  ELSE IF ~AllEq(E.x, E.x[1]) THEN Reject("input leaves of one batch hold different samples")
  ELSE IF ~AllEq(E.y, E.x[1]) THEN Reject("a training target is not the one of its sample")
  ELSE IF ~AllEq(E.u, E.x[1]) THEN Reject("a training uncertainty is not the one of its sample")
  ELSE IF ~NoDup(E.x[1]) \/ Set(E.x[1]) \cap seen # {} THEN Reject("a sample is used twice in one epoch")
  ELSE IF ~(Set(E.x[1]) \subseteq 1..c.n) THEN Reject("unknown sample in a training batch")
  ELSE IF Len(E.x[1]) > BS(c) THEN Reject("training batch larger than the batch size")
  ELSE IF E.mode # 1 THEN Reject("training step evaluated in inference mode")
  ELSE IF E.clk # clk \/ E.stp # stp THEN Reject("training step does not start from the current parameters and state")
  ELSE IF E.ep # k THEN Reject("training loss called with the wrong epoch number")
  ELSE IF ~(ENABLED TrainBatch(Set(E.x[1]))) THEN Reject("training batch not allowed here (batch layout)")
  ELSE TrainBatch(Set(E.x[1])) /\ Advance /\ UNCHANGED <<run, snaps, disp>>

ValEv ==
  IF ph # "val" THEN Reject("a validation batch before the epoch used all training samples")
  ELSE IF ~AllEq(E.x, E.x[1]) THEN Reject("validation input leaves of one batch hold different samples")
  ELSE IF ~AllEq(E.y, E.x[1]) THEN Reject("a validation target is not the one of its sample")
  ELSE IF ~AllEq(E.u, E.x[1]) THEN Reject("a validation uncertainty is not the one of its sample")
  ELSE IF ~NoDup(E.x[1]) \/ Set(E.x[1]) \cap seen # {} THEN Reject("a validation sample is used twice in one pass")
  ELSE IF ~(Set(E.x[1]) \subseteq 1..c.nv) THEN Reject("unknown sample in a validation batch")
  ELSE IF Len(E.x[1]) > VBS(c) THEN Reject("validation batch larger than the validation batch size")
  ELSE IF E.mode # 0 THEN Reject("validation evaluated in training mode")
  ELSE IF E.clk # clk \/ E.stp # stp THEN Reject("validation does not see the current parameters and state")
  ELSE IF ~(ENABLED ValBatch(Set(E.x[1]))) THEN Reject("validation batch not allowed here (batch layout)")
  ELSE ValBatch(Set(E.x[1])) /\ Advance /\ UNCHANGED <<run, snaps, disp>>

CbEv ==
  IF ph # "cb" THEN Reject(IF ph = "loop" THEN "training went on after its stopping rule was met (extra callback)"
                           ELSE "callback at the wrong moment")
  ELSE IF E.epoch # k - 1 THEN Reject("callback called with the wrong epoch number")
  ELSE IF E.clk # clk THEN Reject("callback did not receive the parameters of its epoch")
  ELSE Callback /\ Advance /\ UNCHANGED <<run, snaps, disp>>

RetEv ==
  IF ph # "loop" THEN Reject(IF ph \in {"train", "val"} THEN "training returned in the middle of an epoch"
                             ELSE IF ph = "cb" THEN "training stopped earlier than its rules prescribe, or the callback was skipped"
                             ELSE "returned twice")
  ELSE IF E.clk # best.clk THEN Reject("returned parameters are not those of the best epoch")
  ELSE IF E.stp # best.stp THEN Reject("returned module state is not that of the best epoch")
  ELSE Return /\ Advance /\ UNCHANGED <<run, snaps, disp>>

(* observational class of the returned model: within one trace all runs share data and seeds, so
   the returned model is a function of (starting class, best epoch) *)
ClsEv ==
  LET key == <<AtRun(run).start, best.k, AtRun(run).resume>> IN
  IF ph # "done" THEN Reject("model observed before return")
  ELSE IF \E s \in snaps : s[1] = key /\ s[2] # E.id
       THEN Reject("runs with the same best epoch return different models (parameters, state, key or optimizer)")
  ELSE IF \E s \in snaps : s[1] # key /\ s[2] = E.id
       THEN Reject("runs with different best epochs return the same model")
  ELSE IF \E s \in snaps : s[1] # key /\ s[3] = E.key
       THEN Reject("runs with different best epochs return the same random key")
  ELSE /\ snaps' = snaps \cup {<<key, E.id, E.key>>}
       /\ Advance /\ UNCHANGED <<vars, run, disp>>

NextRunEv ==
  IF ph # "done" \/ run >= Len(Runs) THEN Reject("unexpected new training run")
  ELSE LET cfg == Runs[run + 1]
           s   == CASE cfg.from = "fresh"  -> [clk |-> cfg.clk0, stp |-> cfg.stp0, cnt |-> 0]
                    [] cfg.from = "resume" -> [clk |-> best.clk, stp |-> best.stp, cnt |-> best.cnt]
                    [] cfg.from = "again"  -> [clk |-> best.clk, stp |-> best.stp, cnt |-> 0]
       IN /\ c' = cfg /\ ph' = "val" /\ k' = 0 /\ seen' = {} /\ nbat' = 0
          /\ clk' = s.clk /\ stp' = s.stp /\ cnt' = s.cnt /\ pat' = cfg.P
          /\ best' = NoSnap /\ hist' = << >> /\ killat' = -1
          /\ run' = run + 1 /\ Advance /\ UNCHANGED <<snaps, disp>>

(* ---- signals (C16) ---- *)
DispEv == /\ disp' = [int |-> E.int, term |-> E.term] /\ Advance /\ UNCHANGED <<vars, run, snaps>>
AfterEv ==
  IF ph # "done" THEN Reject("observed before return")
  ELSE IF E.int # disp.int \/ E.term # disp.term THEN Reject("training did not put the signal handling of the process back in place")
  ELSE Advance /\ UNCHANGED <<vars, run, snaps, disp>>
PokeEv == IF E.own THEN Advance /\ UNCHANGED <<vars, run, snaps, disp>>
          ELSE Reject("a signal after training did not reach the handler of the process")
SigEv ==
  IF ph = "done" THEN Reject("training went on after its stopping rule was met")
  ELSE IF c.verbose THEN Signal /\ Advance /\ UNCHANGED <<run, snaps, disp>>
  ELSE Advance /\ UNCHANGED <<vars, run, snaps, disp>>
(* a run that ends by an error leaves the model as it was *)
ExcEv ==
  IF c.fails = "" THEN Reject("training failed: " \o E.msg)
  ELSE LET s == IF hist = << >> THEN Snap(0) ELSE hist[1] IN
       IF E.clk # s.clk \/ E.stp # s.stp THEN Reject("a training run that failed changed the model")
       ELSE /\ best' = s /\ ph' = "done" /\ Advance
            /\ UNCHANGED <<c, k, seen, nbat, clk, stp, cnt, pat, hist, killat, run, snaps, disp>>

Consume ==
  /\ More /\ bad = "" /\ ~SilentEnabled
  /\ CASE E.e = "train" -> TrainEv
       [] E.e = "val"   -> ValEv
       [] E.e = "cb"    -> CbEv
       [] E.e = "ret"   -> RetEv
       [] E.e = "cls"   -> ClsEv
       [] E.e = "run"   -> NextRunEv
       [] E.e = "disp"  -> DispEv
       [] E.e = "after" -> AfterEv
       [] E.e = "poke"  -> PokeEv
       [] E.e = "sig"   -> SigEv
       [] OTHER -> ExcEv
Finish ==
  /\ ~More /\ bad = "" /\ bad' = "end"
  /\ IF ph = "done" /\ run = Len(Runs) THEN PrintT(<<"ACCEPT", tid>>)
     ELSE PrintT(<<"REJECT", tid, l, "the trace ends before training returned">>)
  /\ UNCHANGED <<vars, tid, l, run, snaps, disp>>
TraceNext == (bad = "" /\ Silent) \/ Consume \/ Finish
TraceSpec == TraceInit /\ [][TraceNext]_tvars
(* the invariants of the design are evaluated on the recorded behaviours as well *)
=============================================================================
