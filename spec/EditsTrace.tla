----------------------------- MODULE EditsTrace -----------------------------
EXTENDS Edits, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l, bad
tv == <<evars, tid, l, bad>>
T == Traces[tid]
E == T.ev[l]
More == l <= Len(T.ev)
TraceInit == tid \in 1..Len(Traces) /\ l = 1 /\ bad = "" /\ Start(T.s1, T.s2, T.v)
Reject(why) == bad' = why /\ PrintT(<<"REJECT", tid, l, why>>) /\ UNCHANGED <<evars, tid, l>>
Adv == l' = l + 1 /\ UNCHANGED <<tid, bad>>
Op(o) == CASE o.op = "insert" -> Insert(o.o, o.i, o.x)
           [] o.op = "replace" -> Replace(o.o, o.i, o.x)
           [] o.op = "pop" -> Pop(o.o, o.i)
           [] o.op = "all" -> ReplaceAll(o.o, o.s)
           [] o.op = "compile" -> Compile(o.o, o.n)
           [] o.op = "set" -> SetVals(o.o, o.v)
           [] o.op = "add" -> Add(o.x)
(* pop must hand back the module that was at that place *)
OpEv == IF E.op.op = "pop" /\ E.got # seq[E.op.o][E.op.i] THEN Reject("removing a module returned another one")
        ELSE Op(E.op) /\ Adv
Count(s) == Len(s)
ObsEv ==
  LET o == E.o  t == Trail(o) IN
  IF E.ready # Ready(o) THEN
     Reject(IF Ready(o) THEN "a compiled, unchanged model does not report itself ready"
            ELSE "the model reports itself ready although it was edited after its last compilation")
  ELSE IF Len(E.params) # Len(Flat(seq[o])) \/ \E i \in 1..Len(E.params) : E.params[i] # val[Flat(seq[o])[i]]
     THEN Reject("the parameters of the model are not those of its current modules in their current order")
  ELSE IF ~Ready(o) THEN (IF E.ok THEN Reject("a model that is not ready made a prediction") ELSE Adv /\ UNCHANGED evars)
  ELSE IF ~E.ok THEN Reject("a ready model refused to predict: " \o E.msg)
  ELSE IF E.width # Width(o, cin[o]) THEN Reject("the declared output shape is not that of the current modules")
  ELSE IF \E r \in 1..Len(E.out) : Len(E.out[r]) # cin[o] + Len(t)
     THEN Reject("the prediction is not the composition of the current modules: wrong number of modules applied")
  ELSE IF \E r \in 1..Len(E.out) : \E i \in 1..cin[o] : E.out[r][i] # 100 * r + i
     THEN Reject("the prediction does not start from the given samples")
  ELSE IF \E r \in 1..Len(E.out) : \E i \in 1..Len(t) : Fixed(o, i) /\ E.out[r][cin[o] + i] # t[i]
     THEN Reject("the prediction is not the composition of the current modules with their current parameters")
  ELSE Adv /\ UNCHANGED evars
Consume ==
  /\ More /\ bad = ""
  /\ CASE E.e = "op" -> OpEv
       [] E.e = "obs" -> ObsEv
       [] OTHER -> Reject("operation failed: " \o E.msg)
Finish == ~More /\ bad = "" /\ bad' = "end" /\ PrintT(<<"ACCEPT", tid>>) /\ UNCHANGED <<evars, tid, l>>
TraceNext == Consume \/ Finish
TraceSpec == TraceInit /\ [][TraceNext]_tv
=============================================================================
