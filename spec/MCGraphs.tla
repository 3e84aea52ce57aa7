------------------------------ MODULE MCGraphs ------------------------------
(* Every graph over input, output and modules A, B, C: evaluation as a state machine in which any node all
   of whose sources have been evaluated may go next. *)
EXTENDS Graphs, Json
CONSTANTS Mods
VARIABLES E, done, pos
vars == <<E, done, pos>>
Nodes == {<<m>> : m \in Mods}
AllEdges == ({INP} \cup Nodes) \X (Nodes \cup {OUT})
Init == E \in SUBSET AllEdges /\ done = {INP} /\ pos = <<INP>>
Step(n) == /\ n \in Between(E) \ done /\ Sources(E, n) \subseteq done
           /\ done' = done \cup {n} /\ pos' = Append(pos, n) /\ UNCHANGED E
Next == \E n \in Nodes \cup {OUT} : Step(n)
(* evaluation order is immaterial: it completes iff the graph is resolvable, and whenever it completes
   the order is valid *)
Stuck == \A n \in Nodes \cup {OUT} : ~(n \in Between(E) \ done /\ Sources(E, n) \subseteq done)
CompletesIff == Stuck => ((OUT \in done /\ Between(E) \subseteq done) <=> Resolvable(E))
OrderOK == OUT \in done => (Resolvable(E) => ValidOrder(E, pos))
AfterSources == \A i \in 1..Len(pos) : \A s \in Sources(E, pos[i]) : pos[i] = INP \/ \E j \in 1..(i - 1) : pos[j] = s
NoEarlyOutput == OUT \in done /\ Resolvable(E) => done = Between(E)
Dump == (pos = <<INP>>) => PrintT(<<"BEH", ToJson(E)>>)
=============================================================================
