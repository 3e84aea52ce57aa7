----------------------------- MODULE LossesTrace -----------------------------
(* Judges recorded training runs.
   T.val   the case of the validation loss, with v, the batch size     T.train  the case of the training loss, with b, the batch size
   Events: stop: target (units), epochs run (of two), ok, msg   - the loss itself, through the decision it causes
           step: g[i][e] = first update of prediction e of sample i (units), ok, msg  - its derivative  *)
EXTENDS Losses, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l, bad
tv == <<tid, l, bad>>
T == Traces[tid]
Ev == T.ev
E == Ev[l]
More == l <= Len(Ev)
TraceInit == tid \in 1..Len(Traces) /\ l = 1 /\ bad = ""
Reject(why) == bad' = why /\ PrintT(<<"REJECT", tid, l, why>>) /\ UNCHANGED <<tid, l>>
StopWrong == LET S == Pass(T.val, T.val.v) IN
  IF ~E.ok THEN "training failed: " \o E.msg
  ELSE IF E.target > Max(S) + 2 /\ E.epochs = 2 THEN "the validation loss acted on is larger than the loss " \o E.msg
  ELSE IF E.target < Min(S) - 2 /\ E.epochs # 2 THEN "the validation loss acted on is smaller than the loss " \o E.msg
  ELSE ""
Fits(i, b) == \A e \in 1..Entries(T.train) : 
    IF Base(T.train) \in {"mae", "mre"} /\ T.train.P[i][e] = T.train.Y[i][e]
    THEN LET up == [T.train EXCEPT !.P[i][e] = <<@[1] + 1, @[2]>>] IN Abs(E.g[i][e]) <= Slope(up, i, e, b) + 4   \* any subgradient at the kink
    ELSE Near(E.g[i][e], Slope(T.train, i, e, b))
StepWrong == LET n == Len(T.train.P) b == IF T.train.b >= n THEN n ELSE T.train.b  r == n % b
                 fb == {i \in 1..n : Fits(i, b)}
                 fr == IF r = 0 THEN {} ELSE {i \in 1..n : Fits(i, r)} IN
  IF ~E.ok THEN "training failed: " \o E.msg
  ELSE IF fb \cup fr # 1..n \/ Cardinality(fb \ fr) > n - r \/ Cardinality(fr \ fb) > r
       THEN "the update does not follow the derivative of the loss " \o E.msg
  ELSE ""
Consume == More /\ bad = "" /\ LET w == IF E.e = "stop" THEN StopWrong ELSE StepWrong IN
           IF w # "" THEN Reject(w) ELSE l' = l + 1 /\ UNCHANGED <<tid, bad>>
Finish == ~More /\ bad = "" /\ bad' = "end" /\ PrintT(<<"ACCEPT", tid>>) /\ UNCHANGED <<tid, l>>
TraceNext == Consume \/ Finish
TraceSpec == TraceInit /\ [][TraceNext]_tv
=============================================================================
