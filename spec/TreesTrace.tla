----------------------------- MODULE TreesTrace -----------------------------
EXTENDS Trees, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tree, tid, l, bad
tv == <<tree, tid, l, bad>>
T == Traces[tid]
E == T.ev[l]
More == l <= Len(T.ev)
TraceInit == tid \in 1..Len(Traces) /\ l = 1 /\ bad = "" /\ tree = T.tree
Reject(why) == bad' = why /\ PrintT(<<"REJECT", tid, l, why>>) /\ UNCHANGED <<tree, tid, l>>
Go(t) == tree' = t /\ l' = l + 1 /\ UNCHANGED <<tid, bad>>
GetEv ==
  LET r == GetL(tree, E.p, E.early, E.tl) IN
  IF ~Eq(E.after, tree) THEN Reject("reading changed the container")
  ELSE IF E.ok # r.ok THEN Reject(IF r.ok THEN "reading an existing path was refused" ELSE "reading a path that does not exist was not refused")
  ELSE IF ~r.ok THEN Go(tree)
  ELSE IF ~Eq(E.v, r.v) THEN Reject("reading returned something else than the value stored at the path")
  ELSE IF E.rest # r.rest THEN Reject("the remaining path returned is wrong")
  ELSE IF ~E.same THEN Reject("reading did not return the stored object itself")
  ELSE Go(tree)
PutEv ==
  LET r == PutL(tree, E.p, E.v, E.tl) IN
  IF E.ok # r.ok THEN Reject(IF r.ok THEN "writing an existing path was refused" ELSE "writing an impossible path was not refused")
  ELSE IF ~r.ok THEN (IF Eq(E.after, tree) THEN Go(tree) ELSE Reject("a refused write changed the container"))
  ELSE IF ~Eq(E.after, r.v) THEN Reject("writing a path changed something else than that place")
  ELSE Go(r.v)
GrowEv ==
  LET base == IF E.none THEN Empty(E.ps) ELSE tree
      r == GrowAll(base, E.ps, E.vs) IN
  IF ~Eq(E.after, tree) THEN Reject("extending altered the container passed in")
  ELSE IF E.ok # r.ok THEN Reject(IF r.ok THEN "extending by missing paths was refused" ELSE "an extension that would overwrite or cannot exist was not refused")
  ELSE IF ~r.ok THEN Go(tree)
  ELSE IF ~Eq(E.v, r.v) THEN Reject("extending did not create exactly the missing places")
  ELSE Go(r.v)
ThawEv ==
  IF ~Eq(E.after, tree) THEN Reject("making a copy mutable altered the container passed in")
  ELSE IF ~E.ok \/ ~Eq(E.v, Thaw(tree)) THEN Reject("making mutable did not turn exactly the tuples into lists")
  ELSE Go(Thaw(tree))
Consume ==
  /\ More /\ bad = ""
  /\ CASE E.e = "get" -> GetEv [] E.e = "put" -> PutEv [] E.e = "grow" -> GrowEv [] E.e = "thaw" -> ThawEv
       [] OTHER -> Reject("operation failed: " \o E.msg)
Finish == ~More /\ bad = "" /\ bad' = "end" /\ PrintT(<<"ACCEPT", tid>>) /\ UNCHANGED <<tree, tid, l>>
TraceNext == Consume \/ Finish
TraceSpec == TraceInit /\ [][TraceNext]_tv
=============================================================================
