--------------------------- MODULE OptimizerTrace ---------------------------
(* Judges recorded trainings.  T.sizes: entries per parameter array.   Parameters in units, <<re, im>> per entry.
   Events: run   resume, on[j] (array j is trainable), o (options), lr (rate by epochs trained, sixteenths), K, G[epoch][j][i], x (parameters before)
           epoch k, x (parameters the callback was given), add (what the callback added to every entry)
           end   x (parameters the model has afterwards)
           set   x (parameters assigned)
           exc   msg *)
EXTENDS Optimizer, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l, bad, cur, opt, conf, kept
tv == <<tid, l, bad, cur, opt, conf, kept>>
T == Traces[tid]
Ev == T.ev
E == Ev[l]
More == l <= Len(Ev)
Arrays == 1..Len(T.sizes)
TraceInit == tid \in 1..Len(Traces) /\ l = 1 /\ bad = "" /\ cur = << >> /\ opt = << >> /\ conf = << >> /\ kept = << >>
Reject(why) == bad' = why /\ PrintT(<<"REJECT", tid, l, why>>) /\ UNCHANGED <<tid, l, cur, opt, conf, kept>>
Go == l' = l + 1 /\ UNCHANGED <<tid, bad>>
Zero == [j \in Arrays |-> [i \in 1..T.sizes[j] |-> New]]
RunEv == IF cur # << >> /\ E.x # cur THEN Reject("the run does not start from the parameters the model has")
         ELSE cur' = E.x /\ conf' = E /\ opt' = (IF E.resume THEN opt ELSE Zero) /\ kept' = E.x /\ Go
SetEv == cur' = E.x /\ Go /\ UNCHANGED <<opt, conf, kept>>
(* one epoch: every trainable entry moves by the steps of its own gradient, every frozen one stays *)
Done(j, i) == Updates(opt[j][i], conf.G[E.k][j][i], conf.o, conf.lr[opt[j][i].n + 1], conf.K)
Near(j, i, u) == \A c \in 1..2 : Abs(cur[j][i][c] - u.d[c] - E.x[j][i][c]) <= (4 * conf.K) + (u.w \div 64)
EpochEv ==
  LET U1 == [j \in Arrays |-> [i \in 1..T.sizes[j] |-> IF conf.on[j] THEN Done(j, i) ELSE [s |-> opt[j][i], d |-> <<0, 0>>, w |-> 0]]]
      wrong == {j \in Arrays : \E i \in 1..T.sizes[j] : ~Near(j, i, U1[j][i])}
      moved == {j \in Arrays : ~conf.on[j] /\ cur[j] # E.x[j]} IN
  IF moved # {} THEN Reject("a frozen parameter changed")
  ELSE IF wrong # {} THEN LET j == CHOOSE j \in wrong : TRUE  i == CHOOSE i \in 1..T.sizes[j] : ~Near(j, i, U1[j][i]) IN
       Reject("epoch " \o ToString(E.k) \o " array " \o ToString(j) \o " entry " \o ToString(i) \o ": moved by " \o ToString(<<cur[j][i][1] - E.x[j][i][1], cur[j][i][2] - E.x[j][i][2]>>)
              \o " instead of " \o ToString(U1[j][i].d) \o "/4096")
  ELSE /\ opt' = [j \in Arrays |-> [i \in 1..T.sizes[j] |-> IF conf.on[j] THEN EndEpoch(U1[j][i].s) ELSE opt[j][i]]]
       /\ kept' = E.x
       /\ cur' = [j \in Arrays |-> [i \in 1..T.sizes[j] |-> <<E.x[j][i][1] + (U * E.add), E.x[j][i][2]>>]]
       /\ Go /\ UNCHANGED conf
EndEv == IF E.x # kept THEN Reject("the model does not have the parameters of the last epoch") ELSE cur' = E.x /\ Go /\ UNCHANGED <<opt, conf, kept>>
Consume == More /\ bad = "" /\
  CASE E.e = "run" -> RunEv [] E.e = "epoch" -> EpochEv [] E.e = "end" -> EndEv [] E.e = "set" -> SetEv
    [] OTHER -> Reject("training failed: " \o E.msg)
Finish == ~More /\ bad = "" /\ bad' = "end" /\ PrintT(<<"ACCEPT", tid>>) /\ UNCHANGED <<tid, l, cur, opt, conf, kept>>
TraceNext == Consume \/ Finish
TraceSpec == TraceInit /\ [][TraceNext]_tv
=============================================================================
