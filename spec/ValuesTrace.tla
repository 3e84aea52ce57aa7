----------------------------- MODULE ValuesTrace -----------------------------
(* Judges recorded histories of real models.
   T.full[v], T.round[v]    class of the parameter values written, with and without their low-order bits
   T.sval[v]                class of the state values written
   Event: op, s, a, p, ok (not refused), msg, skip, and what the object then looks like:
     par, st    class of the exact values     kinds, skinds  real / complex / integer, leaf by leaf
     bits, sbits  precisions that occur       out  class of the outputs to the last bit,  tol  up to rounding *)
EXTENDS Values, FiniteSets, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l, bad, obj, pv, sv, ov, tvl
tv == <<tid, l, bad, obj, pv, sv, ov, tvl>>
T == Traces[tid]
Ev == T.ev
E == Ev[l]
More == l <= Len(Ev)
TraceInit == /\ tid \in 1..Len(Traces) /\ l = 1 /\ bad = "" /\ obj = [s \in 1..3 |-> Fresh("")] /\ pv = {} /\ sv = {} /\ ov = {} /\ tvl = {}
Reject(why) == bad' = why /\ PrintT(<<"REJECT", tid, l, why>>) /\ UNCHANGED <<tid, l, obj, pv, sv, ov, tvl>>
O == obj[E.s]
Refusable == E.op \in {"bad", "sbad"} \/ (E.op = "cast" /\ ~CanCast(T.x64, E.p))
New == CASE E.op = "new" -> Fresh(E.a)
         [] E.op = "write" -> Write(O, E.a, E.p)
         [] E.op = "wstate" -> WriteState(O, E.a, E.p)
         [] E.op = "cast" -> IF CanCast(T.x64, E.p) THEN Cast(O, E.p) ELSE O
         [] E.op = "feed" -> IF T.stateful THEN Feed(O) ELSE O
         [] OTHER -> O
Clash(f, q, a) == \E x \in f : x[1] = q /\ x[2] # a
Want(o) == IF o.low THEN T.full[o.par[2]] ELSE T.round[o.par[2]]
Wrong(o) ==
  IF o.par[1] = "value" /\ T.params /\ E.par # Want(o) THEN "the parameters are not those written, in this precision"
  ELSE IF Clash(pv, <<o.par, o.low>>, E.par) THEN "the parameters changed"
  ELSE IF Len(o.st) = 1 /\ o.st # <<"init">> /\ E.st # T.sval["a"] THEN "the state is not the one written"
  ELSE IF Clash(sv, o.st, E.st) THEN "the state changed"
  ELSE IF E.kinds # T.kinds \/ E.skinds # T.skinds THEN "parameters or state changed between real, complex and integer"
  ELSE IF o.prec # 0 /\ \E i \in 1..Len(E.bits) : E.bits[i] # o.prec THEN "a parameter does not have the precision asked for"
  ELSE IF o.sprec # 0 /\ \E i \in 1..Len(E.sbits) : E.sbits[i] # o.sprec THEN "a state array does not have the precision asked for"
  ELSE IF E.out = -1 THEN "the model cannot be used: " \o E.omsg
  ELSE IF Clash(ov, Exactly(o), E.out) THEN "the outputs depend on more than parameters, state and precision"
  ELSE IF T.smooth /\ Clash(tvl, Roughly(o), E.tol) THEN "the precision changed the function computed"
  ELSE ""
Consume ==
  /\ More /\ bad = ""
  /\ IF E.skip THEN l' = l + 1 /\ UNCHANGED <<tid, bad, obj, pv, sv, ov, tvl>>
     ELSE IF Refusable /\ E.ok THEN Reject("a write or cast that must be refused was accepted: " \o E.msg)
     ELSE IF ~Refusable /\ ~E.ok THEN Reject(E.op \o " failed: " \o E.msg)
     ELSE LET o == New  w == Wrong(o) IN
          IF w # "" THEN Reject(E.op \o ": " \o w \o " " \o E.msg)
          ELSE /\ obj' = [obj EXCEPT ![E.s] = o]
               /\ pv' = pv \cup {<<<<o.par, o.low>>, E.par>>} /\ sv' = sv \cup {<<o.st, E.st>>}
               /\ ov' = ov \cup {<<Exactly(o), E.out>>} /\ tvl' = tvl \cup {<<Roughly(o), E.tol>>}
               /\ l' = l + 1 /\ UNCHANGED <<tid, bad>>
Finish == ~More /\ bad = "" /\ bad' = "end" /\ PrintT(<<"ACCEPT", tid>>) /\ UNCHANGED <<tid, l, obj, pv, sv, ov, tvl>>
TraceNext == Consume \/ Finish
TraceSpec == TraceInit /\ [][TraceNext]_tv
=============================================================================
