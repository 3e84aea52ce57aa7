--------------------------- MODULE GradientsTrace ---------------------------
(* Judges recorded requests for derivatives.
   T.exact  the modules are those of Gradients (else the package's own: only agreement is decided)
   T.mods   the modules at the start
   Events:  grad: w, ids, xs (the samples), ok, msg, jx[i] / jp[i][m] (result for sample i), cls[i] class of the result for sample i (-1: unusable),
                  cnt, calls (samples the returned state has counted; -1: not asked), mods (read back after), dig (everything else stored), upd, stored (count stored)
            predict: ids, xs, ys          set: mods (wanted)   *)
EXTENDS Gradients, Json, IOUtils, TLC
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l, bad, ms, count, dig, val
tv == <<tid, l, bad, ms, count, dig, val>>
T == Traces[tid]
Ev == T.ev
E == Ev[l]
More == l <= Len(Ev)
TraceInit == /\ tid \in 1..Len(Traces) /\ l = 1 /\ bad = "" /\ ms = Traces[tid].mods /\ count = 0 /\ dig = Traces[tid].dig /\ val = {}
Reject(why) == bad' = why /\ PrintT(<<"REJECT", tid, l, why>>) /\ UNCHANGED <<tid, l, ms, count, dig, val>>
Adv == l' = l + 1 /\ UNCHANGED <<tid, bad>>
N == Len(E.ids)
WrongX(i) == LET r == Run(ms, E.xs[i]) IN IF E.w = "input" THEN E.jx[i] # r.jx ELSE IF E.w = "params" THEN E.jp[i] # r.jp ELSE E.jx[i] # r.y
Clash(i) == E.cls[i] # -1 /\ \E v \in val : v[1] = E.w /\ v[2] = E.ids[i] /\ v[3] # E.cls[i]
Twice(i, j) == E.ids[i] = E.ids[j] /\ E.cls[i] # E.cls[j] /\ E.cls[i] # -1 /\ E.cls[j] # -1
What == IF E.w = "predict" THEN "prediction" ELSE "gradient by the " \o E.w
GradWrong ==
  IF ~E.ok THEN "the " \o What \o " failed: " \o E.msg
  ELSE IF T.exact /\ Len(E.jx) # N /\ Len(E.jp) # N THEN "the number of results is not the number of samples"
  ELSE IF T.exact /\ \E i \in 1..N : WrongX(i) THEN "the " \o What \o " is not that of the model's current function: " \o E.msg
  ELSE IF \E i \in 1..Len(E.cls) : Clash(i) THEN "the " \o What \o " of a sample depends on mode, batch limit or earlier calls: " \o E.msg
  ELSE IF \E i, j \in 1..Len(E.cls) : Twice(i, j) THEN "two copies of a sample have different gradients: " \o E.msg
  ELSE IF T.exact /\ E.cnt # -1 /\ E.cnt # count + N THEN "the returned state is not that after all samples: " \o E.msg
  ELSE IF T.exact /\ E.mods # ms THEN "asking for the " \o What \o " changed the model"
  ELSE IF T.exact /\ E.stored # (IF E.upd /\ T.gates THEN count + N ELSE count) THEN "the stored state is not the one expected: " \o E.msg
  ELSE IF E.dig # dig THEN "asking for the " \o What \o " changed the model"
  ELSE ""
GradEv == LET w == GradWrong IN
  IF w # "" THEN Reject(w)
  ELSE /\ Adv /\ val' = val \cup {<<E.w, E.ids[i], E.cls[i]>> : i \in {q \in 1..Len(E.cls) : E.cls[q] # -1}}
       /\ count' = (IF T.exact THEN E.stored ELSE 0) /\ UNCHANGED <<ms, dig>>
SetEv == IF ~E.ok THEN Reject("an assignment or edit failed: " \o E.msg)
         ELSE IF T.exact /\ E.mods # E.want THEN Reject("an assignment or edit did not take effect")
         ELSE Adv /\ ms' = E.mods /\ count' = E.stored /\ dig' = E.dig /\ val' = {}
Consume == More /\ bad = "" /\ IF E.e = "grad" THEN GradEv ELSE SetEv
Finish == ~More /\ bad = "" /\ bad' = "end" /\ PrintT(<<"ACCEPT", tid>>) /\ UNCHANGED <<tid, l, ms, count, dig, val>>
TraceNext == Consume \/ Finish
TraceSpec == TraceInit /\ [][TraceNext]_tv
=============================================================================
