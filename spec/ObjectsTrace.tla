---------------------------- MODULE ObjectsTrace ----------------------------
(* Judges recorded histories of real objects.  Events:
     op    op, s, a, (t for pass), ok, msg, may (operation may be refused: nothing to train)
     obs   s, f (aspect), c (class of the bit pattern seen)
     must  what, ok        facts that hold by themselves
   seen: aspect term -> class.  init: <<seed, class>> of freshly drawn parameters.             *)
EXTENDS Objects, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l, bad, seen, init
tv == <<obj, tid, l, bad, seen, init>>
T == Traces[tid]
Ev == T.ev
E == Ev[l]
More == l <= Len(Ev)
TraceInit == /\ tid \in 1..Len(Traces) /\ l = 1 /\ bad = "" /\ init = {} /\ seen = [x \in {} |-> 0]
             /\ obj = [s \in 1..T.slots |-> Nothing]
Reject(why) == /\ bad' = why /\ PrintT(<<"REJECT", tid, l, why>>) /\ UNCHANGED <<obj, tid, l, seen, init>>
Adv == l' = l + 1 /\ UNCHANGED <<tid, bad>>
OpEv ==
  IF ~E.ok /\ ~E.may THEN Reject(E.op \o " failed: " \o E.msg)
  ELSE IF ~E.ok THEN Adv /\ UNCHANGED <<obj, seen, init>>          \* refused: the object stays as it was
  ELSE /\ Adv /\ UNCHANGED <<seen, init>>
       /\ obj' = CASE E.op = "new" -> [obj EXCEPT ![E.s] = Fresh(E.a)]
                   [] E.op = "pass" -> [obj EXCEPT ![E.t] = obj[E.s]]
                   [] OTHER -> [obj EXCEPT ![E.s] = After(@, E.op, E.a)]
Word == [par |-> "parameters", st |-> "module state", key |-> "random key", marks |-> "trainable marks", opt |-> "optimizer state",
         shape |-> "shapes and readiness", kind |-> "modules and options", out |-> "predictions"]
ObsEv ==
  LET k == Aspect(obj[E.s], E.f) IN
  IF k \in DOMAIN seen /\ seen[k] # E.c
    THEN Reject("the " \o Word[E.f] \o " differ from what the same history gave before")
  ELSE IF E.f = "par" /\ T.rand /\ SubSeq(obj[E.s].par, 1, 1) = "c" /\ \E p \in init : p[1] # obj[E.s].par /\ p[2] = E.c
    THEN Reject("different seeds gave the same initial parameters")
  ELSE /\ seen' = (k :> E.c) @@ seen
       /\ init' = IF E.f = "par" /\ SubSeq(obj[E.s].par, 1, 1) = "c" THEN init \cup {<<obj[E.s].par, E.c>>} ELSE init
       /\ Adv /\ UNCHANGED obj
Consume ==
  /\ More /\ bad = ""
  /\ CASE E.e = "op" -> OpEv
       [] E.e = "obs" -> ObsEv
       [] E.e = "must" -> IF E.ok THEN Adv /\ UNCHANGED <<obj, seen, init>> ELSE Reject(E.what)
       [] OTHER -> Reject("operation failed: " \o E.msg)
Finish == ~More /\ bad = "" /\ bad' = "end" /\ PrintT(<<"ACCEPT", tid>>) /\ UNCHANGED <<obj, tid, l, seen, init>>
TraceNext == Consume \/ Finish
TraceSpec == TraceInit /\ [][TraceNext]_tv
=============================================================================
