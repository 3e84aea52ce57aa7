--------------------------- MODULE LifecycleTrace ---------------------------
(* Judges recorded lives of real models. A trace is a set of branches (several models built alike),
   each a sequence of events; class identifiers are shared by the whole trace.                  *)
EXTENDS Lifecycle, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l, bad, pmap, kmap
tv == <<lvars, tid, l, bad, pmap, kmap>>
T == Traces[tid]
Ev == T.ev
E == Ev[l]
More == l <= Len(Ev)
TraceInit ==
  /\ tid \in 1..Len(Traces) /\ l = 1 /\ bad = "" /\ pmap = {} /\ kmap = {}
  /\ Start(T.K, T.sched, T.hasp, T.v0, T.f0, T.s0)
Reject(why) == /\ bad' = why /\ PrintT(<<"REJECT", tid, l, why>>)
               /\ UNCHANGED <<lvars, tid, l, pmap, kmap>>
Adv == l' = l + 1 /\ UNCHANGED <<tid, bad>>
Keep == UNCHANGED <<pmap, kmap>>
ToSet(s) == {s[i] : i \in 1..Len(s)}

FlagEv == SetFlag(ToSet(E.ls), E.v) /\ Adv /\ Keep
ReadEv ==
  IF \E j \in Leaves : E.leaf[j] # flag[j] THEN Reject("a module's trainable mark reads back differently")
  ELSE IF \E i \in 1..Len(E.subs) : E.subs[i].v # (\E j \in ToSet(E.subs[i].ls) : flag[j])
       THEN Reject("a model's trainable mark is not: some module in it is trainable")
  ELSE Adv /\ Keep /\ UNCHANGED lvars
TrainEv ==
  IF ~E.ok THEN
     IF (E.resume /\ ~opt) \/ ~AnyTrains THEN Adv /\ Keep /\ UNCHANGED lvars   \* refused, nothing changes
     ELSE Reject("training failed: " \o E.msg)
  ELSE IF E.resume /\ ~opt THEN Reject("resuming without a stored optimizer state was not refused")
  ELSE IF ~AnyTrains THEN     \* nothing to train: parameters must stay; everything else as observed next
         /\ stp' = stp + E.nb * E.best /\ key' = Append(key, E.nb * E.best) /\ opt' = TRUE
         /\ UNCHANGED <<K, sched, hasp, val, term, flag, hist>> /\ Adv /\ Keep
  ELSE Train(E.resume, E.nb, E.best) /\ Adv /\ Keep
ObsEv ==      \* everything readable, integer runs
  LET badj == {j \in Leaves : hasp[j] /\ E.p[j] # val[j]} IN
  IF badj # {} /\ \E j \in badj : ~flag[j] THEN Reject("parameters of a frozen module differ from the last assigned or trained values")
  ELSE IF badj # {} THEN Reject("parameters are not those the training history prescribes")
  ELSE IF \E j \in Leaves : E.s[j] # -1 /\ E.s[j] # stp THEN Reject("module state is not that of the training history")
  ELSE Adv /\ Keep /\ UNCHANGED lvars
ClsEv ==      \* bit pattern classes, real Adam runs
  LET new == {<<j, term[j], E.pc[j]>> : j \in {i \in Leaves : hasp[i]}} IN
  IF \E a \in new, b \in pmap : a[1] = b[1] /\ a[2] = b[2] /\ a[3] # b[3]
     THEN Reject("two histories that must give the same parameters give different ones")
  ELSE IF \E a \in new, b \in pmap : a[1] = b[1] /\ a[2] # b[2] /\ a[3] = b[3]
     THEN Reject("two histories that must give different parameters give the same ones")
  ELSE IF \E b \in kmap : b[1] = key /\ b[2] # E.kc THEN Reject("the random key differs between equal histories")
  ELSE IF \E j \in Leaves : E.s[j] # -1 /\ E.s[j] # stp THEN Reject("module state is not that of the training history")
  ELSE /\ pmap' = pmap \cup new /\ kmap' = kmap \cup {<<key, E.kc>>}
       /\ Adv /\ UNCHANGED lvars
BranchEv ==  \* a new model, built like the first
  /\ K' = T.K /\ sched' = T.sched /\ hasp' = T.hasp /\ val' = T.v0 /\ flag' = T.f0 /\ stp' = T.s0 /\ opt' = FALSE
  /\ term' = [j \in 1..T.K |-> << <<"v", T.v0[j]>> >>] /\ hist' = [j \in 1..T.K |-> << >>] /\ key' = << >>
  /\ Adv /\ Keep
Consume ==
  /\ More /\ bad = ""
  /\ CASE E.e = "flag" -> FlagEv
       [] E.e = "read" -> ReadEv
       [] E.e = "train" -> TrainEv
       [] E.e = "set" -> Assign(E.v) /\ Adv /\ Keep
       [] E.e = "reload" -> Reload /\ Adv /\ Keep
       [] E.e = "clone" -> Clone /\ Adv /\ Keep
       [] E.e = "obs" -> ObsEv
       [] E.e = "cls" -> ClsEv
       [] E.e = "branch" -> BranchEv
       [] OTHER -> Reject("operation failed: " \o E.msg)
Finish == /\ ~More /\ bad = "" /\ bad' = "end" /\ PrintT(<<"ACCEPT", tid>>)
          /\ UNCHANGED <<lvars, tid, l, pmap, kmap>>
TraceNext == Consume \/ Finish
TraceSpec == TraceInit /\ [][TraceNext]_tv
=============================================================================
