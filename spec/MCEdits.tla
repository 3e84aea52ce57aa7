------------------------------ MODULE MCEdits ------------------------------
EXTENDS Edits, TLC, Json
CONSTANTS Depth
VARIABLES ops, ini, nxt          \* nxt: next unused leaf
mv == <<evars, ops, ini, nxt>>
NL == 2 + Depth + 2
Init == /\ \E s1 \in {<<1>>, <<1, 2>>, <<1, Nested>>, <<Nested, 1>>} :
             Start(s1, IF Has(s1, Nested) THEN <<2>> ELSE << >>, [j \in 1..NL |-> j])
        /\ ops = << >> /\ nxt = 3 /\ ini = seq
Log(o) == ops' = Append(ops, o) /\ ini' = ini
Fresh == nxt' = nxt + 1
Same == nxt' = nxt
HasN == Has(seq[1], Nested)
Targets == IF HasN THEN {1, 2} ELSE {1}
Next ==
  /\ Len(ops) < Depth
  /\ \/ \E o \in Targets, i \in 0..2 : Insert(o, i, nxt) /\ Fresh /\ Log([op |-> "insert", o |-> o, i |-> i, x |-> nxt])
     \/ \E o \in Targets, i \in 1..3 : /\ Replace(o, i, nxt) /\ (o = 1 => seq[1][i] # Nested) /\ Fresh
                                       /\ Log([op |-> "replace", o |-> o, i |-> i, x |-> nxt])
     \/ \E o \in Targets, i \in 1..3 : /\ Pop(o, i) /\ (o = 1 => seq[1][i] # Nested) /\ Same
                                       /\ Log([op |-> "pop", o |-> o, i |-> i])
     \/ \E o \in Targets, n \in 1..2 : Compile(o, n) /\ Same /\ seq[o] # << >> /\ Log([op |-> "compile", o |-> o, n |-> n])
     \/ /\ SetVals(1, [j \in 1..NL |-> 20 * (Len(ops) + 1) + j]) /\ Same
        /\ Log([op |-> "set", o |-> 1, v |-> [j \in 1..NL |-> 20 * (Len(ops) + 1) + j]])
     \/ \E n \in 1..2 : Compile(3, n) /\ Same /\ seq[3] # << >> /\ Log([op |-> "compile", o |-> 3, n |-> n])
     \/ /\ seq[3] = << >> /\ Add(nxt) /\ Fresh /\ Log([op |-> "add", x |-> nxt])
Spec == Init /\ [][Next]_mv
Dump == Len(ops) = Depth => PrintT(<<"BEH", ToJson([s1 |-> ini[1], s2 |-> ini[2], nl |-> NL, ops |-> ops])>>)
=============================================================================
