----------------------------- MODULE ShapesTrace -----------------------------
(* Judges recorded histories.  Type 1 (and 2 where the trace says so) is one the model can be compiled for; the others are
   different from all of these.
   Events: compile j: ok, out (class of the declared output type), mid (classes of the declared types after each module),
           declare j: ok, out         edit
           call j, w (how), n: refused, msg, out (class of the type of the result, samples taken off), cnt (its number of samples),
              mid (the same after each module, evaluated one by one)
           every event: ready, dig (class of everything a refused call must not change) *)
EXTENDS Shapes, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l, bad, obj, outs, mids, dig
tv == <<tid, l, bad, obj, outs, mids, dig>>
T == Traces[tid]
Ev == T.ev
E == Ev[l]
More == l <= Len(Ev)
TraceInit == /\ tid \in 1..Len(Traces) /\ l = 1 /\ bad = "" /\ obj = Nothing /\ outs = {<<1, Traces[tid].expect>>} /\ mids = {} /\ dig = -1
Reject(why) == bad' = why /\ PrintT(<<"REJECT", tid, l, why>>) /\ UNCHANGED <<tid, l, obj, outs, mids, dig>>
Adv == l' = l + 1 /\ UNCHANGED <<tid, bad>>
Clash(f, j, a) == \E x \in f : x[1] = j /\ x[2] # a
Learn == outs' = outs \cup {<<E.j, E.out>>} /\ mids' = (IF E.mid = <<>> THEN mids ELSE mids \cup {<<E.j, E.mid>>})
ReadyWrong(o) == IF E.ready # o.ready THEN (IF E.ready THEN "the model reports itself ready when it is not" ELSE "the model reports itself not ready when it is") ELSE ""
CompileEv ==
  IF ~E.ok THEN Reject("compilation failed: " \o E.msg)
  ELSE IF Clash(outs, E.j, E.out) THEN Reject("compilation declares another output shape than before: " \o E.msg)
  ELSE IF E.mid # <<>> /\ Clash(mids, E.j, E.mid) THEN Reject("a module declares another output shape than before: " \o E.msg)
  ELSE IF ReadyWrong(Compiled(E.j)) # "" THEN Reject(ReadyWrong(Compiled(E.j)))
  ELSE Adv /\ obj' = Compiled(E.j) /\ Learn /\ dig' = E.dig
DeclareEv ==
  IF ~E.ok /\ (obj.for = E.j \/ E.sure) THEN Reject("the output shape is not declared: " \o E.msg)
  ELSE IF ~E.ok THEN Adv /\ UNCHANGED <<obj, outs, mids, dig>>
  ELSE IF Clash(outs, E.j, E.out) THEN Reject("the declared output shape is not the real one: " \o E.msg)
  ELSE IF ReadyWrong(obj) # "" THEN Reject(ReadyWrong(obj))
  ELSE IF dig # -1 /\ E.dig # dig THEN Reject("asking for the output shape changed the model")
  ELSE Adv /\ Learn /\ UNCHANGED <<obj, dig>>
EditEv == IF ~E.ok THEN Reject("edit failed: " \o E.msg)
          ELSE IF ReadyWrong(Edited(obj)) # "" THEN Reject(ReadyWrong(Edited(obj))) 
          ELSE Adv /\ obj' = Edited(obj) /\ dig' = E.dig /\ mids' = {} /\ UNCHANGED outs
CallEv ==
  IF ~Accepts(obj, E.j) THEN
     IF ~E.refused THEN Reject((IF obj.ready THEN "data of another shape or structure was accepted: " ELSE "a model that is not compiled accepted data: ") \o E.msg)
     ELSE IF dig # -1 /\ E.dig # dig THEN Reject("a refused call changed the model: " \o E.msg)
     ELSE IF ReadyWrong(obj) # "" THEN Reject(ReadyWrong(obj))
     ELSE Adv /\ UNCHANGED <<obj, outs, mids, dig>>
  ELSE IF E.w # "predict" THEN Adv /\ dig' = E.dig /\ UNCHANGED <<obj, outs, mids>>
  ELSE IF E.refused THEN Reject("data of the compiled shape was refused: " \o E.msg)
  ELSE IF ~E.cnt THEN Reject("the number of results is not the number of samples: " \o E.msg)
  ELSE IF Clash(outs, E.j, E.out) THEN Reject("the declared output shape is not the real one: " \o E.msg)
  ELSE IF E.mid # <<>> /\ Clash(mids, E.j, E.mid) THEN Reject("the output shape a module declares is not the real one: " \o E.msg)
  ELSE Adv /\ Learn /\ dig' = E.dig /\ UNCHANGED obj
Consume ==
  /\ More /\ bad = ""
  /\ CASE E.op = "compile" -> CompileEv
       [] E.op = "declare" -> DeclareEv
       [] E.op = "edit" -> EditEv
       [] OTHER -> CallEv
Finish == ~More /\ bad = "" /\ bad' = "end" /\ PrintT(<<"ACCEPT", tid>>) /\ UNCHANGED <<tid, l, obj, outs, mids, dig>>
TraceNext == Consume \/ Finish
TraceSpec == TraceInit /\ [][TraceNext]_tv
=============================================================================
