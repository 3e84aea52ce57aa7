------------------------------ MODULE MCShapes ------------------------------
EXTENDS Shapes, TLC, Json
CONSTANTS Depth, Types
VARIABLES obj, calls, hist      \* calls: predictions made so far, a stand-in for everything a call might change
mcv == <<obj, calls, hist>>
Init == obj = Nothing /\ calls = 0 /\ hist = <<>>
Log(op, j, w) == hist' = Append(hist, [op |-> op, j |-> j, w |-> w])
Compile(j) == obj' = Compiled(j) /\ UNCHANGED calls /\ Log("compile", j, "")
Edit == obj.for # 0 /\ obj' = Edited(obj) /\ UNCHANGED calls /\ Log("edit", 0, "")
Call(j, w) == /\ UNCHANGED obj /\ calls' = (IF Accepts(obj, j) THEN calls + 1 ELSE calls) /\ Log("call", j, w)
Declare(j) == UNCHANGED <<obj, calls>> /\ Log("declare", j, "")
Next == /\ Len(hist) < Depth
        /\ \/ Edit \/ \E j \in {1, 2} : Compile(j) \/ Declare(j)
           \/ \E j \in 1..Types : \E w \in {"predict", "grad", "train"} : (w = "train" => obj.ready) /\ Call(j, w)
Only == [][calls' # calls => obj.ready /\ hist'[Len(hist')].j = obj.for]_mcv
Until == [][\A j \in 1..Types : (~Accepts(obj, j) /\ Accepts(obj', j)) => hist'[Len(hist')] = [op |-> "compile", j |-> j, w |-> ""]]_mcv
Refused == [][(hist'[Len(hist')].op = "call" /\ ~Accepts(obj, hist'[Len(hist')].j)) => obj' = obj /\ calls' = calls]_mcv
Dump == Len(hist) = Depth => PrintT(<<"BEH", ToJson(hist)>>)
=============================================================================
