---------------------------- MODULE LossesOracle ----------------------------
EXTENDS Losses, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, done
Init == tid \in 1..Len(Traces) /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED tid
        /\ LET c == Traces[tid] S == Pass(c, c.v) IN PrintT(<<"OUT", tid, ToJson([lo |-> Min(S), hi |-> Max(S)])>>)
TraceSpec == Init /\ [][Next]_<<tid, done>>
=============================================================================
