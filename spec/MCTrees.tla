------------------------------ MODULE MCTrees ------------------------------
(* Laws of the path operations over every small tree and pair of paths; each state is one case. *)
EXTENDS Trees, TLC, Json
CONSTANTS Depth2
VARIABLES tree, p, q, done
vars == <<tree, p, q, done>>
K(s) == [s |-> s, i |-> -1]
N(s, i) == [s |-> s, i |-> i]
Comps == {K("a"), K("ab"), N("0", 0), N("1", 1)}
Paths == {<<x>> : x \in Comps} \cup {<<x, y>> : x \in Comps, y \in Comps}
         \cup (IF Depth2 THEN {<<x, y, z>> : x \in {K("a"), N("0", 0)}, y \in {K("a"), N("1", 1)}, z \in {K("ab"), N("0", 0)}} ELSE {})
L0 == {Leaf(1), None}
Conts(S) == {[t |-> "l", c |-> << >>]}
            \cup {[t |-> tt, c |-> <<x>>] : tt \in {"l", "u"}, x \in S}
            \cup {[t |-> tt, c |-> <<x, y>>] : tt \in {"l", "u"}, x \in S, y \in S}
            \cup {[t |-> "d", k |-> <<"a">>, c |-> <<x>>] : x \in S \ {None}}
            \cup {[t |-> "d", k |-> <<"a", "ab">>, c |-> <<x, y>>] : x \in S \ {None}, y \in S \ {None}}
            \cup {[t |-> "d", k |-> <<"0", "a">>, c |-> <<x, y>>] : x \in S \ {None}, y \in S \ {None}}
L1 == L0 \cup Conts(L0)
Sel1 == {Leaf(2)} \cup {x \in Conts(L0) : x.t # "u" \/ Len(x.c) < 2}
Trees2 == Conts(L0) \cup Conts(IF Depth2 THEN Sel1 \cup {None} ELSE {Leaf(2), None, [t |-> "l", c |-> <<Leaf(1)>>],
             [t |-> "d", k |-> <<"a">>, c |-> <<Leaf(1)>>], [t |-> "u", c |-> <<Leaf(1), None>>]})
Init == tree \in Trees2 /\ p \in Paths /\ q \in Paths /\ done = FALSE
Next == done = FALSE /\ done' = TRUE /\ UNCHANGED <<tree, p, q>>
V == Leaf(7)
Prefix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
Put1 == Put(tree, p, V)
PutThenGet == Put1.ok => Get(Put1.v, p, FALSE).ok /\ Get(Put1.v, p, FALSE).v = V
(* every other place reads as before *)
PutFrame == Put1.ok /\ ~Prefix(p, q) /\ ~Prefix(q, p) => Get(Put1.v, q, FALSE) = Get(tree, q, FALSE)
GetThenPut == Get(tree, p, FALSE).ok /\ Put(tree, p, Get(tree, p, FALSE).v).ok => Eq(Put(tree, p, Get(tree, p, FALSE).v).v, tree)
G1 == Grow(tree, p, V)
GrowThere == G1.ok => Get(G1.v, p, FALSE).ok /\ Get(G1.v, p, FALSE).v = V
GrowKeeps == G1.ok /\ Get(tree, q, FALSE).ok /\ Get(tree, q, FALSE).v.t = "x" => Get(G1.v, q, FALSE) = Get(tree, q, FALSE)
GrowTwice == G1.ok => Grow(G1.v, p, V).ok /\ Eq(Grow(G1.v, p, V).v, G1.v)
GrowNoneKeeps == Get(tree, p, FALSE).ok /\ Grow(tree, p, None).ok => Eq(Grow(tree, p, None).v, tree)
ThawSame == Size(Thaw(tree)) = Size(tree) /\ (Get(Thaw(tree), p, FALSE).ok <=> Get(tree, p, FALSE).ok)
EarlyAgrees == Get(tree, p, FALSE).ok => Get(tree, p, TRUE) = Get(tree, p, FALSE)
Dump == ~done => PrintT(<<"BEH", ToJson([tree |-> tree, p |-> p, q |-> q])>>)
=============================================================================
