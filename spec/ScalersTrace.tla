----------------------------- MODULE ScalersTrace -----------------------------
(* Judges recorded histories of real scalers.
   T.data[name]  data set: one matrix (samples x components, integers) per leaf
   T.opts[name]  options for data of that structure: per leaf, per component (a leaf of kind hot has one entry)
   T.one: the data were given to the scaler divided by this; back is multiplied by it again
   Events:  op = new | fit | pass;  use: s, a (data set), refused, ok (structure and shapes of the answers are as expected),
            got  the transform, back  its inverse: per leaf, per sample, per component, in units of 1/65536 *)
EXTENDS Scalers, Json, IOUtils
Unit == 65536
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l, bad, fit
tv == <<tid, l, bad, fit>>
T == Traces[tid]
Ev == T.ev
E == Ev[l]
More == l <= Len(Ev)
TraceInit == /\ tid \in 1..Len(Traces) /\ l = 1 /\ bad = "" /\ fit = [s \in 1..3 |-> ""]
Reject(why) == /\ bad' = why /\ PrintT(<<"REJECT", tid, l, why>>) /\ UNCHANGED <<tid, l, fit>>
Adv == l' = l + 1 /\ UNCHANGED <<tid, bad>>
Abs(x) == IF x < 0 THEN -x ELSE x
(* v units equal num / den up to rounding *)
Near(v, r) == LET lim == 4 + Abs(v) \div 40000 IN Abs((r[1] \div r[2]) * Unit + ((r[1] % r[2]) * Unit) \div r[2] - v) <= lim
Hotleaf(i) == T.opts[E.a][i][1].k = "hot"
LeafWrong(i) ==
  LET D == T.data[E.a][i]
      F == T.data[fit[E.s]][i]
      G == E.got[i]
      B == E.back[i]
  IN  IF Len(G) # Len(D) \/ Len(B) # Len(D) THEN "samples were lost"
      ELSE IF Hotleaf(i) THEN
           IF \E m \in 1..Len(D) : Len(G[m]) # Width(F) THEN "the one-hot encoding has the wrong width"
           ELSE IF \E m \in 1..Len(D) : G[m] # [j \in 1..Width(F) |-> Unit * Hot(F, D[m])[j]] THEN "the one-hot encoding is not that of the last fitted data"
           ELSE IF \E m \in 1..Len(D) : D[m] \in RowsOf(F) /\ \E j \in 1..Len(D[m]) : ~Near(B[m][j], <<D[m][j], 1>>) THEN "the inverse does not recover the data"
           ELSE ""
      ELSE IF \E m \in 1..Len(D) : Len(G[m]) # Len(D[m]) \/ Len(B[m]) # Len(D[m]) THEN "components were lost"
      ELSE IF \E m \in 1..Len(D) : \E j \in 1..Len(D[m]) : ~Near(G[m][j], Tf(T.opts[E.a][i][j], Column(F, j), T.one, D[m][j])) THEN "the transform is not the documented one of the last fitted data"
      ELSE IF \E m \in 1..Len(D) : \E j \in 1..Len(D[m]) : ~Near(B[m][j], <<D[m][j], 1>>) THEN "the inverse does not recover the data"
      ELSE ""
Free == \A i \in 1..Len(T.opts[E.a]) : T.opts[E.a][i][1].k = "off"     \* nothing to fit
UseEv ==
  IF fit[E.s] = "" /\ ~Free THEN IF E.refused THEN Adv /\ UNCHANGED fit ELSE Reject("data was transformed before fitting")
  ELSE IF E.refused THEN Reject("a fitted scaler refused: " \o E.msg)
  ELSE IF ~E.ok THEN Reject("the answer has another structure: " \o E.msg)
  ELSE IF Free THEN IF E.same THEN Adv /\ UNCHANGED fit ELSE Reject("data without scaler was changed")
  ELSE LET ws == {LeafWrong(i) : i \in 1..Len(T.opts[E.a])} \ {""} IN
       IF ws # {} THEN Reject(CHOOSE w \in ws : TRUE) ELSE Adv /\ UNCHANGED fit
OpEv == IF ~E.ok THEN Reject(E.op \o " failed: " \o E.msg)
        ELSE /\ Adv /\ fit' = CASE E.op = "new" -> [fit EXCEPT ![E.s] = ""]
                                [] E.op = "fit" -> [fit EXCEPT ![E.s] = E.a]
                                [] E.op = "pass" -> [fit EXCEPT ![E.t] = fit[E.s]]
                                [] OTHER -> fit
Consume ==
  /\ More /\ bad = ""
  /\ CASE E.e = "op" -> OpEv
       [] E.e = "use" -> UseEv
       [] OTHER -> Reject("operation failed: " \o E.msg)
Finish == ~More /\ bad = "" /\ bad' = "end" /\ PrintT(<<"ACCEPT", tid>>) /\ UNCHANGED <<tid, l, fit>>
TraceNext == Consume \/ Finish
TraceSpec == TraceInit /\ [][TraceNext]_tv
=============================================================================
