----------------------------- MODULE MCObjects -----------------------------
(* All histories of two slots up to Depth. *)
EXTENDS Objects, Json
CONSTANTS Depth
VARIABLES hist
Slots == {1, 2}
mcv == <<obj, hist>>
Init == /\ obj = [s \in Slots |-> IF s = 1 THEN Fresh("1") ELSE Nothing]
        /\ hist = << [op |-> "new", s |-> 1, a |-> "1"] >>
Log(r) == hist' = Append(hist, r)
Ops == {<<"compile", "1">>, <<"compile", "2">>, <<"train", "1">>, <<"resume", "2">>, <<"mark", "1f">>, <<"assign", "1">>,
        <<"feed", "1">>, <<"key", "5">>}
Do(s) == \E oa \in Ops :
           /\ Can(obj[s], oa[1])
           /\ (oa[1] = "compile" => ~obj[s].ready)
           /\ obj' = [obj EXCEPT ![s] = After(@, oa[1], oa[2])]
           /\ Log([op |-> oa[1], s |-> s, a |-> oa[2]])
Pass(s, t) == /\ obj[s].alive /\ s # t
              /\ obj' = [obj EXCEPT ![t] = obj[s]]
              /\ Log([op |-> "pass", s |-> s, a |-> "", t |-> t])
New(s) == /\ ~obj[s].alive /\ obj' = [obj EXCEPT ![s] = Fresh("1")] /\ Log([op |-> "new", s |-> s, a |-> "1"])
Next == Len(hist) < Depth /\ \E s \in Slots : Do(s) \/ New(s) \/ \E t \in Slots : Pass(s, t)
Spec == Init /\ [][Next]_mcv
(* nothing happens to an object behind its back *)
Independent == [][\A s \in Slots : obj'[s] # obj[s] => hist'[Len(hist')].s = s \/ (hist'[Len(hist')].op = "pass" /\ hist'[Len(hist')].t = s)]_mcv
(* equal histories give equal objects, and an object passed on is the same object *)
Mine(s) == SelectSeq(hist, LAMBDA r : r.s = s /\ r.op \notin {"pass", "new"})
NoPass == \A i \in 1..Len(hist) : hist[i].op # "pass"
Functional == NoPass /\ obj[1].alive /\ obj[2].alive /\ [i \in 1..Len(Mine(1)) |-> <<Mine(1)[i].op, Mine(1)[i].a>>] = [i \in 1..Len(Mine(2)) |-> <<Mine(2)[i].op, Mine(2)[i].a>>]
              => obj[1] = obj[2]
PassedOn == [][hist'[Len(hist')].op = "pass" => obj'[1] = obj'[2] /\ obj'[hist'[Len(hist')].s] = obj[hist'[Len(hist')].s]]_mcv
(* optimizer and marks never show in parameters, state, key other than through training *)
TrainOnly == \A s \in Slots : obj[s].opt = "none" => \A i \in 1..Len(obj[s].par) : SubSeq(obj[s].par, i, i) # "t"
Dump == Len(hist) = Depth => PrintT(<<"BEH", ToJson(hist)>>)
=============================================================================
