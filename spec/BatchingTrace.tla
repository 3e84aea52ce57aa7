---------------------------- MODULE BatchingTrace ----------------------------
(* Judges recorded predictions.
   T.mods   number of stateful modules (0 for models of the package's own modules)
   Events   call: ids, mbs, upd, key (label of the random key in force), ok, msg,
                  rows[i][m] = <<sample, state at the start of its batch, training mode, parameter, leaves agree, key seen>>
                  cls[i]  class of the result of sample i (equal up to rounding = equal class), order (sample shown in each output leaf)
                  ret  (the returned states; <<>> if not asked),  st  the stored states afterwards, pars the stored parameters
            set:  which = "par" | "st" | "key"; st, pars *)
EXTENDS Batching, Json, IOUtils, TLC
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l, bad, st, pars, val, keys
tv == <<tid, l, bad, st, pars, val, keys>>
T == Traces[tid]
Ev == T.ev
E == Ev[l]
More == l <= Len(Ev)
TraceInit == /\ tid \in 1..Len(Traces) /\ l = 1 /\ bad = "" /\ st = Traces[tid].st0 /\ pars = Traces[tid].pars0
             /\ val = <<>> /\ keys = <<>>
Reject(why) == bad' = why /\ PrintT(<<"REJECT", tid, l, why>>) /\ UNCHANGED <<tid, l, st, pars, val, keys>>
Adv == l' = l + 1 /\ UNCHANGED <<tid, bad>>
Mods == 1..T.mods
N == Len(E.ids)
Final(m) == Fold(st[m], E.ids)
Known(f, k) == \E i \in 1..Len(f) : f[i][1] = k
At(f, k) == f[CHOOSE i \in 1..Len(f) : f[i][1] = k][2]
(* the same question has one answer *)
Clash(f, q, a) == Known(f, q) /\ At(f, q) # a
Again(i, j) == E.ids[i] = E.ids[j] /\ E.cls[i] # E.cls[j]
CallWrong ==
  IF ~E.ok THEN "the call failed: " \o E.msg
  ELSE IF Len(E.rows) # N /\ T.mods > 0 THEN "the number of results is not the number of samples"
  ELSE IF \E a \in 1..Len(E.order) : E.order[a] # E.ids THEN "results are not in the order of the samples"
  ELSE IF \E i \in 1..N, m \in Mods : E.rows[i][m][1] # E.ids[i] THEN "results are not in the order of the samples"
  ELSE IF \E i \in 1..N, m \in Mods : E.rows[i][m][5] # 1 THEN "parts of different samples were put together"
  ELSE IF \E i \in 1..N, m \in Mods : E.rows[i][m][3] # 0 THEN "the prediction ran in training mode"
  ELSE IF \E i \in 1..N, m \in Mods : E.rows[i][m][4] # pars[m] THEN "the prediction used other parameters than the model's"
  ELSE IF \E m \in Mods : ~Explained(E.ids, [i \in 1..N |-> E.rows[i][m][2]], st[m], Cap(N, E.mbs)) THEN "a batch did not start from the state the batch before it left"
  ELSE IF E.ret # <<>> /\ \E m \in Mods : E.ret[m] # Final(m) THEN "the returned state is not that after all samples in order"
  ELSE IF T.mods > 0 /\ E.st # (IF E.upd THEN [m \in Mods |-> Final(m)] ELSE st) THEN IF E.upd THEN "the stored state is not that after all samples in order" ELSE "the stored state changed without being asked to"
  ELSE IF E.pars # pars THEN "the prediction changed parameters"
  ELSE IF \E i \in 1..Len(E.cls) : Clash(val, E.ids[i], E.cls[i]) THEN "the result of a sample depends on the batch split, its neighbours or earlier calls"
  ELSE IF \E i, j \in 1..Len(E.cls) : Again(i, j) THEN "two copies of a sample got different results"
  ELSE IF \E m \in Mods : \E i \in 1..N : Clash(keys, <<E.key, m>>, E.rows[i][m][6]) \/ E.rows[i][m][6] # E.rows[1][m][6] THEN "the random key a batch sees depends on the batch split or earlier calls"
  ELSE ""
CallEv ==
  LET w == CallWrong IN
  IF w # "" THEN Reject(w)
  ELSE /\ Adv
       /\ st' = IF E.upd /\ T.mods > 0 THEN E.st ELSE st
       /\ val' = val \o [i \in 1..Len(E.cls) |-> <<E.ids[i], E.cls[i]>>]
       /\ keys' = keys \o [m \in Mods |-> <<<<E.key, m>>, E.rows[1][m][6]>>]
       /\ UNCHANGED pars
SetEv == IF ~E.ok THEN Reject("an assignment failed: " \o E.msg)
         ELSE IF E.st # E.stwant \/ E.pars # E.parswant THEN Reject("an assignment did not take effect")
         ELSE Adv /\ st' = E.st /\ pars' = E.pars /\ val' = <<>> /\ UNCHANGED keys
Consume == /\ More /\ bad = "" /\ IF E.e = "call" THEN CallEv ELSE SetEv
Finish == ~More /\ bad = "" /\ bad' = "end" /\ PrintT(<<"ACCEPT", tid>>) /\ UNCHANGED <<tid, l, st, pars, val, keys>>
TraceNext == Consume \/ Finish
TraceSpec == TraceInit /\ [][TraceNext]_tv
=============================================================================
