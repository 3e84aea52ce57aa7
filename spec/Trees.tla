------------------------------- MODULE Trees -------------------------------
(* Nested containers and the path operations on them (C19).
   A tree is a record:  [t|->"d", k|->keys, c|->children]  dictionary
                        [t|->"l", c|->children] list,  [t|->"u", c|->children] tuple
                        [t|->"x", x|->value] leaf,     [t|->"n"] None
   A path is a sequence of components [s|->text, i|->number or -1].
   Results: [ok|->TRUE, ...] or Fail.                                                           *)
EXTENDS Integers, Sequences, FiniteSets
None == [t |-> "n"]
Leaf(v) == [t |-> "x", x |-> v]
Fail == [ok |-> FALSE]
IsSeqNode(n) == n.t \in {"l", "u"}
IsCont(n) == n.t \in {"d", "l", "u"}
HasKey(n, s) == \E j \in 1..Len(n.k) : n.k[j] = s
KeyPos(n, s) == CHOOSE j \in 1..Len(n.k) : n.k[j] = s
(* position of the child a component names, 0 if there is none *)
Pos(n, c) == CASE n.t = "d" -> IF HasKey(n, c.s) THEN KeyPos(n, c.s) ELSE 0
               [] IsSeqNode(n) -> IF c.i >= 0 /\ c.i < Len(n.c) THEN c.i + 1 ELSE 0
               [] OTHER -> 0

RECURSIVE Eq(_, _)
Eq(a, b) ==
  /\ a.t = b.t
  /\ CASE a.t = "n" -> TRUE
       [] a.t = "x" -> a.x = b.x
       [] a.t = "d" -> /\ {a.k[j] : j \in 1..Len(a.k)} = {b.k[j] : j \in 1..Len(b.k)}
                       /\ \A j \in 1..Len(a.k) : Eq(a.c[j], b.c[KeyPos(b, a.k[j])])
       [] OTHER -> Len(a.c) = Len(b.c) /\ \A j \in 1..Len(a.c) : Eq(a.c[j], b.c[j])

(* ---- reading.  stop: node types at which reading ends early when `early` is allowed ---- *)
RECURSIVE GetL(_, _, _, _)        \* tl: tuples count as leaves (the is_leaf argument)
GetL(n, p, early, tl) ==
  IF p = << >> THEN [ok |-> TRUE, v |-> n, rest |-> << >>]
  ELSE IF ~IsCont(n) \/ (tl /\ n.t = "u") THEN IF early THEN [ok |-> TRUE, v |-> n, rest |-> p] ELSE Fail
  ELSE IF Pos(n, Head(p)) = 0 THEN Fail
  ELSE GetL(n.c[Pos(n, Head(p))], Tail(p), early, tl)
Get(n, p, early) == GetL(n, p, early, FALSE)

(* ---- writing: the last component may be a new dictionary key; tuples cannot be written ---- *)
RECURSIVE PutL(_, _, _, _)
PutL(n, p, v, tl) ==
  IF p = << >> \/ ~IsCont(n) \/ (tl /\ n.t = "u") THEN Fail
  ELSE LET j == Pos(n, Head(p)) IN
    IF Len(p) = 1 THEN
      CASE n.t = "u" -> Fail
        [] j > 0 -> [ok |-> TRUE, v |-> [n EXCEPT !.c[j] = v]]
        [] n.t = "d" -> [ok |-> TRUE, v |-> [t |-> "d", k |-> Append(n.k, Head(p).s), c |-> Append(n.c, v)]]
        [] OTHER -> Fail
    ELSE IF j = 0 THEN Fail
    ELSE LET r == PutL(n.c[j], Tail(p), v, tl) IN
         IF r.ok THEN [ok |-> TRUE, v |-> [n EXCEPT !.c[j] = r.v]] ELSE Fail
Put(n, p, v) == PutL(n, p, v, FALSE)

(* ---- extending: create what is missing on path p, fill with v ---- *)
RECURSIVE Chain(_, _)
Pad(cs, m) == [j \in 1..(IF m > Len(cs) THEN m ELSE Len(cs)) |-> IF j <= Len(cs) THEN cs[j] ELSE None]
Chain(p, v) ==                     \* a fresh branch for path p
  IF p = << >> THEN v
  ELSE IF Head(p).i >= 0 THEN [t |-> "l", c |-> [j \in 1..(Head(p).i + 1) |-> IF j = Head(p).i + 1 THEN Chain(Tail(p), v) ELSE None]]
  ELSE [t |-> "d", k |-> <<Head(p).s>>, c |-> <<Chain(Tail(p), v)>>]
RECURSIVE Grow(_, _, _)
Grow(n, p, v) ==
  IF ~IsCont(n) THEN Fail
  ELSE IF IsSeqNode(n) /\ Head(p).i < 0 THEN Fail
  ELSE LET m == IF IsSeqNode(n) THEN [n EXCEPT !.c = Pad(n.c, Head(p).i + 1)] ELSE n
           j == Pos(m, Head(p))
           missing == j = 0 \/ (IsSeqNode(m) /\ m.c[j].t = "n")
       IN IF missing THEN
            [ok |-> TRUE, v |-> IF j = 0 THEN [t |-> "d", k |-> Append(m.k, Head(p).s), c |-> Append(m.c, Chain(Tail(p), v))]
                                ELSE [m EXCEPT !.c[j] = Chain(Tail(p), v)]]
          ELSE IF Len(p) = 1 THEN
            IF v.t = "n" \/ Eq(m.c[j], v) THEN [ok |-> TRUE, v |-> m] ELSE Fail
          ELSE LET r == Grow(m.c[j], Tail(p), v) IN
               IF r.ok THEN [ok |-> TRUE, v |-> [m EXCEPT !.c[j] = r.v]] ELSE Fail
RECURSIVE GrowAll(_, _, _)
GrowAll(n, ps, vs) ==
  IF ps = << >> THEN [ok |-> TRUE, v |-> n]
  ELSE LET r == Grow(n, Head(ps), Head(vs)) IN
       IF r.ok THEN GrowAll(r.v, Tail(ps), Tail(vs)) ELSE Fail
Empty(ps) == IF \A j \in 1..Len(ps) : ps[j][1].i >= 0 THEN [t |-> "l", c |-> << >>] ELSE [t |-> "d", k |-> << >>, c |-> << >>]

RECURSIVE Thaw(_)
Thaw(n) == CASE n.t = "d" -> [n EXCEPT !.c = [j \in 1..Len(n.c) |-> Thaw(n.c[j])]]
             [] IsSeqNode(n) -> [t |-> "l", c |-> [j \in 1..Len(n.c) |-> Thaw(n.c[j])]]
             [] OTHER -> n
RECURSIVE Size(_)
RECURSIVE SumSizes(_)
SumSizes(s) == IF s = << >> THEN 0 ELSE Size(Head(s)) + SumSizes(Tail(s))
Size(n) == IF IsCont(n) THEN SumSizes(n.c) ELSE 1
=============================================================================
