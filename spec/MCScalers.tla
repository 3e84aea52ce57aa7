------------------------------ MODULE MCScalers ------------------------------
(* Two scalers: fitted, refitted, used and passed on in every order, over every small column. *)
EXTENDS Scalers, Json
CONSTANTS Depth, MaxN, MaxV, Pairs
Slots == {1, 2}
VARIABLES fitted, alive, said, hist
mcv == <<fitted, alive, said, hist>>
All == UNION {[1..n -> 0..MaxV] : n \in 1..MaxN}
Cols == IF Pairs THEN {<<0, 2>>, <<1, 1, 4>>} ELSE {c \in All : Perfect(Spread(c))}
Name(c) == IF c = <<0, 2>> THEN "1" ELSE "2"
Options == {[k |-> "none"], [k |-> "std"], [k |-> "mm", lo |-> -1, hi |-> 2], [k |-> "mm", lo |-> 3, hi |-> 1],
            [k |-> "rob", ql |-> 25, qh |-> 75, c |-> TRUE, s |-> TRUE], [k |-> "rob", ql |-> 10, qh |-> 60, c |-> FALSE, s |-> TRUE],
            [k |-> "rob", ql |-> 0, qh |-> 100, c |-> TRUE, s |-> FALSE]}
Init == /\ fitted = [s \in Slots |-> <<>>] /\ alive = [s \in Slots |-> s = 1] /\ said = "" 
        /\ hist = << [op |-> "new", s |-> 1, a |-> ""] >>
Log(r) == hist' = Append(hist, r)
Fit(s) == \E c \in Cols : /\ alive[s] /\ fitted' = [fitted EXCEPT ![s] = c]
                          /\ Log([op |-> "fit", s |-> s, a |-> IF Pairs THEN Name(c) ELSE ""]) /\ UNCHANGED <<alive, said>>
Use(s) == /\ alive[s] /\ said' = (IF fitted[s] = <<>> THEN "refused" ELSE "given") /\ UNCHANGED <<fitted, alive>>
          /\ \E a \in IF Pairs THEN {"1", "2"} ELSE {"1"} : Log([op |-> "use", s |-> s, a |-> a])
Pass(s, t) == /\ alive[s] /\ s # t /\ alive' = [alive EXCEPT ![t] = TRUE] /\ fitted' = [fitted EXCEPT ![t] = fitted[s]]
              /\ Log([op |-> "pass", s |-> s, a |-> "", t |-> t]) /\ UNCHANGED said
Next == Len(hist) < Depth /\ \E s \in Slots : Fit(s) \/ Use(s) \/ \E t \in Slots : Pass(s, t)

(* the inverse transform undoes the transform, for values seen and not seen *)
Inverts == \A s \in Slots : fitted[s] # <<>> => \A o \in Options : \A x \in -1..(MaxV + 1) : Is(Inv(o, fitted[s], 1, Tf(o, fitted[s], 1, x)), x)
(* scaled data has the documented statistics *)
Documented == \A s \in Slots : LET c == fitted[s] IN c # <<>> =>
   /\ LET srt == Sort(c)
          mm == [k |-> "mm", lo |-> -1, hi |-> 2]
      IN  /\ Is(Tf(mm, c, 1, srt[1]), -1) /\ (srt[1] # srt[Len(srt)] => Is(Tf(mm, c, 1, srt[Len(srt)]), 2))
   /\ LET y == [i \in 1..Len(c) |-> Tf([k |-> "std"], c, 1, c[i])]
          d == y[1][2]
      IN  /\ \A i \in 1..Len(c) : y[i][2] = d
          /\ Sum([i \in 1..Len(c) |-> y[i][1]]) = 0
          /\ Spread(c) # 0 => Sum([i \in 1..Len(c) |-> y[i][1] * y[i][1]]) = Len(c) * d * d
Last == [][\A s \in Slots : fitted'[s] # fitted[s] => LET h == hist'[Len(hist')] IN (h.op = "fit" /\ h.s = s) \/ (h.op = "pass" /\ h.t = s)]_mcv
Dump == Len(hist) = Depth => PrintT(<<"BEH", ToJson(hist)>>)
=============================================================================
