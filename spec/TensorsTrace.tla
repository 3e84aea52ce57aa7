---------------------------- MODULE TensorsTrace ----------------------------
(* Judges what real modules and models computed.
   T.x[i]  sample i of the input     T.mods  the modules in order (with the parameters in use)
   Events: ok, msg, how (the call), y[i]: sample i of the output, entries doubled; exact: all entries were multiples of one half *)
EXTENDS Tensors, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l, bad
tv == <<tid, l, bad>>
T == Traces[tid]
Ev == T.ev
E == Ev[l]
More == l <= Len(Ev)
TraceInit == tid \in 1..Len(Traces) /\ l = 1 /\ bad = ""
Reject(why) == bad' = why /\ PrintT(<<"REJECT", tid, l, why>>) /\ UNCHANGED <<tid, l>>
Doubled == \E i \in 1..Len(T.mods) : Halves(T.mods[i])
Want(i) == LET y == Run(T.mods, T.x[i]) IN IF Doubled THEN y ELSE MapLeaves(y, LAMBDA j, t : Times(<<2, 0>>, t))
RECURSIVE Same(_, _)
Same(a, b) == a.k = b.k /\ (IF a.k = "t" THEN a.s = b.s /\ a.v = b.v
                            ELSE a.c = b.c /\ \A i \in 1..Len(a.x) : Same(a.x[i], b.x[i]))
RECURSIVE Form(_)
Form(a) == IF a.k = "t" THEN <<"t", <<>>, <<>> >> ELSE <<a.k, a.c, [i \in 1..Len(a.x) |-> Form(a.x[i])]>>
Wrong == IF ~E.ok THEN "the call failed: " \o E.msg
         ELSE IF Len(E.y) # Len(T.x) THEN "the number of samples changed " \o E.how
         ELSE LET bads == {i \in 1..Len(T.x) : ~Same(E.y[i], Want(i))} IN
              IF bads = {} THEN (IF E.exact THEN "" ELSE "entries are not the ones defined " \o E.how)
              ELSE LET i == CHOOSE i \in bads : TRUE w == Want(i) IN
                   IF Form(w) # Form(E.y[i]) THEN "the result has another structure " \o E.how
                   ELSE "the result is not the one defined " \o E.how
Consume == More /\ bad = "" /\ (IF Wrong # "" THEN Reject(Wrong) ELSE l' = l + 1 /\ UNCHANGED <<tid, bad>>)
Finish == ~More /\ bad = "" /\ bad' = "end" /\ PrintT(<<"ACCEPT", tid>>) /\ UNCHANGED <<tid, l>>
TraceNext == Consume \/ Finish
TraceSpec == TraceInit /\ [][TraceNext]_tv
=============================================================================
