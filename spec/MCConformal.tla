----------------------------- MODULE MCConformal -----------------------------
(* Two objects with a cache of quantiles; calibrated, asked, saved and loaded in every order, with
   every small multiset of scores. *)
EXTENDS Conformal, Json
CONSTANTS Depth, MaxN, MaxV, Levels, Pairs
Slots == {1, 2}
VARIABLES scores, cache, names, said, hist
mcv == <<scores, cache, names, said, hist>>
Sets == {s \in UNION {[1..n -> 0..MaxV] : n \in 1..MaxN} : Sorted(s)}
Cals == IF Pairs THEN {<<0, 2, 5>>, <<1, 1, 3, 8>>} ELSE Sets
Name(c) == IF c = <<0, 2, 5>> THEN "1" ELSE "2"
Init == /\ scores = [s \in Slots |-> <<>>] /\ cache = [s \in Slots |-> [x \in {} |-> 0]]
        /\ names = [s \in Slots |-> s = 1] /\ said = [s |-> 0, a |-> 0, q |-> 0, n |-> 0, refused |-> FALSE]
        /\ hist = << [op |-> "new", s |-> 1, a |-> ""] >>
Log(r) == hist' = Append(hist, r)
Same == UNCHANGED said
Calibrate(s) == \E c \in Cals :
                  /\ names[s] /\ scores' = [scores EXCEPT ![s] = c] /\ cache' = [cache EXCEPT ![s] = [x \in {} |-> 0]]
                  /\ Log([op |-> "cal", s |-> s, a |-> IF Pairs THEN Name(c) ELSE ""]) /\ UNCHANGED <<names, said>>
Ask(s) == \E a \in Levels :
            /\ names[s] /\ UNCHANGED <<scores, names>>
            /\ LET fresh == scores[s] # <<>> /\ a \notin DOMAIN cache[s]
                   q == IF a \in DOMAIN cache[s] THEN cache[s][a] ELSE NQ(scores[s], a)
               IN  IF scores[s] = <<>> THEN said' = [s |-> s, a |-> a, q |-> 0, n |-> 0, refused |-> TRUE] /\ UNCHANGED cache
                   ELSE /\ said' = [s |-> s, a |-> a, q |-> q, n |-> Len(scores[s]), refused |-> FALSE]
                        /\ cache' = IF fresh THEN [cache EXCEPT ![s] = (a :> q) @@ @] ELSE cache
            /\ Log([op |-> "ask", s |-> s, a |-> ToString(a)])
Pass(s, t) == /\ names[s] /\ s # t
              /\ scores' = [scores EXCEPT ![t] = scores[s]] /\ cache' = [cache EXCEPT ![t] = cache[s]]
              /\ names' = [names EXCEPT ![t] = TRUE] /\ Log([op |-> "pass", s |-> s, a |-> "", t |-> t]) /\ Same
New(s) == /\ ~names[s] /\ names' = [names EXCEPT ![s] = TRUE] /\ Log([op |-> "new", s |-> s, a |-> ""])
          /\ UNCHANGED <<scores, cache, said>>
Next == Len(hist) < Depth /\ \E s \in Slots : Calibrate(s) \/ Ask(s) \/ New(s) \/ \E t \in Slots : Pass(s, t)

(* the cache never holds the quantile of another calibration *)
Coherent == \A s \in Slots : \A a \in DOMAIN cache[s] : cache[s][a] = NQ(scores[s], a)
Covers == \A s \in Slots : scores[s] # <<>> => \A a \in Levels :
            /\ Covered(scores[s], NQ(scores[s], a)) * 1000 >= Len(scores[s]) * (1000 - a)
            /\ Covered(scores[s], NQ(scores[s], a)) >= Rank(Len(scores[s]), a)
Nested == \A s \in Slots : scores[s] # <<>> => \A a \in Levels : \A b \in Levels : a <= b => NQ(scores[s], a) >= NQ(scores[s], b)
Refuses == [][(hist'[Len(hist')].op = "ask") => (said'.refused <=> scores[hist'[Len(hist')].s] = <<>>)]_mcv
Answers == [][(hist'[Len(hist')].op = "ask" /\ ~said'.refused) => said'.q = NQ(scores[said'.s], said'.a)]_mcv
Independent == [][\A s \in Slots : scores'[s] # scores[s] => hist'[Len(hist')].s = s \/ (hist'[Len(hist')].op = "pass" /\ hist'[Len(hist')].t = s)]_mcv
Dump == Len(hist) = Depth => PrintT(<<"BEH", ToJson(hist)>>)
=============================================================================
