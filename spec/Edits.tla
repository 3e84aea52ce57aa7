------------------------------- MODULE Edits -------------------------------
(* Sequential models under edits (C07).  Object 1 is the outer model, object 2 a model nested in
   it (as one item), object 3 the result of `outer + x`.  Items: a leaf number (> 0) or 0 = "the
   nested model".  Leaf j appends its current value and the width it was compiled for to the data.

   seq[o]   current items, in order of application          val[j]  current parameter of leaf j
   cin[o]   width the object was compiled for, 0 = not      cn[j]   width leaf j was compiled for *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES seq, cin, val, cn, sh   \* sh: leaves that two models have shared (compiled width then open)
evars == <<seq, cin, val, cn, sh>>
Objs == 1..3
Nested == 0
InsertAt(s, i, x) == SubSeq(s, 1, i) \o <<x>> \o SubSeq(s, i + 1, Len(s))     \* after i items
RemoveAt(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))

RECURSIVE Flat(_)
Flat(s) == IF s = << >> THEN << >>
           ELSE (IF Head(s) = Nested THEN Flat(seq[2]) ELSE <<Head(s)>>) \o Flat(Tail(s))
Has(s, x) == \E i \in 1..Len(s) : s[i] = x

Ready(o) == /\ cin[o] > 0 /\ seq[o] # << >>
            /\ (Has(seq[o], Nested) => cin[2] > 0 /\ seq[2] # << >>)

(* what the model appends to every sample *)
Trail(o) == LET f == Flat(seq[o]) IN
            [i \in 1..(2 * Len(f)) |-> IF i % 2 = 1 THEN val[f[(i + 1) \div 2]] ELSE cn[f[i \div 2]]]
(* TRUE where the width entry is determined *)
Fixed(o, i) == i % 2 = 1 \/ Flat(seq[o])[i \div 2] \notin sh
Width(o, n) == n + 2 * Len(Flat(seq[o]))

Start(s1, s2, v) ==
  /\ seq = <<s1, s2, << >> >> /\ cin = <<0, 0, 0>> /\ val = v /\ cn = [j \in DOMAIN v |-> 0] /\ sh = {}

(* any edit of o: new items, o has to be compiled again; nothing else changes *)
Edit(o, s) == /\ seq' = [seq EXCEPT ![o] = s] /\ cin' = [cin EXCEPT ![o] = 0] /\ UNCHANGED <<val, cn, sh>>
Insert(o, i, x) == i \in 0..Len(seq[o]) /\ Edit(o, InsertAt(seq[o], i, x))
Append1(o, x) == Insert(o, Len(seq[o]), x)
Prepend1(o, x) == Insert(o, 0, x)
Replace(o, i, x) == i \in 1..Len(seq[o]) /\ Edit(o, [seq[o] EXCEPT ![i] = x])
Pop(o, i) == i \in 1..Len(seq[o]) /\ Edit(o, RemoveAt(seq[o], i))
ReplaceAll(o, s) == Edit(o, s)
Add(x) == /\ seq' = [seq EXCEPT ![3] = Append(seq[1], x)] /\ cin' = [cin EXCEPT ![3] = 0]
          /\ sh' = sh \cup {Flat(seq[1])[i] : i \in 1..Len(Flat(seq[1]))} /\ UNCHANGED <<val, cn>>

(* position (0-based, in leaves) at which the nested model starts inside o *)
RECURSIVE Before(_)
Before(s) == IF s = << >> \/ Head(s) = Nested THEN 0 ELSE 1 + Before(Tail(s))
Compile(o, n) ==
  /\ LET f == Flat(seq[o]) IN
     cn' = [j \in DOMAIN cn |-> IF Has(f, j) THEN n + 2 * (CHOOSE i \in 0..(Len(f) - 1) : f[i + 1] = j) ELSE cn[j]]
  /\ cin' = [q \in Objs |-> IF q = o THEN n
                            ELSE IF q = 2 /\ Has(seq[o], Nested) THEN n + 2 * Before(seq[o]) ELSE cin[q]]
  /\ UNCHANGED <<seq, val, sh>>
SetVals(o, v) == /\ val' = [j \in DOMAIN val |-> IF Has(Flat(seq[o]), j) THEN v[j] ELSE val[j]]
                 /\ UNCHANGED <<seq, cin, cn, sh>>

(* ---------------- properties ---------------- *)
EditedNotReady == [][\A o \in Objs : seq'[o] # seq[o] => ~Ready(o)']_evars
InnerEditStopsOuter == [][\A o \in {1, 3} : Has(seq[o], Nested) /\ Has(seq'[o], Nested) /\ seq'[2] # seq[2] => ~Ready(o)']_evars
AddKeeps == [][seq'[3] # seq[3] => seq'[1] = seq[1] /\ cin'[1] = cin[1] /\ val' = val]_evars
TrailLength == \A o \in Objs : Len(Trail(o)) = 2 * Len(Flat(seq[o]))
CompiledWidths == \A o \in Objs : Ready(o) /\ cin[o] > 0 => \A i \in 1..Len(Flat(seq[o])) : cn[Flat(seq[o])[i]] > 0
=============================================================================
