------------------------------- MODULE Graphs -------------------------------
(* Connection graphs of non-sequential models (C09, C20).
   A path is a sequence of strings.  A graph is given by
     mods : the set of module paths (none a prefix of another),
     conn : the sequence of written connections [f |-> path, t |-> path]
            (f a source: "input"... or module output part; t a target: module input part or "output"...).
   What a connection means is defined here declaratively; evaluation is defined on values
     [t|->"x",x|->number]  [t|->"d",k|->keys,c|->children]  [t|->"l",c|->children]  [t|->"n"].          *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Digits == [s \in {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "10", "11", "12"} |->
             CHOOSE i \in 0..12 : ToString(i) = s]
IsDigit(s) == s \in DOMAIN Digits
Name(i) == ToString(i)
Prefix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
Drop(p, n) == SubSeq(p, n + 1, Len(p))
Range(s) == {s[i] : i \in 1..Len(s)}
INP == <<"input">>
OUT == <<"output">>
NoOwner == <<"?">>
(* ---- which node a path belongs to: only whole components count ---- *)
Owner(mods, p) == IF p = << >> THEN NoOwner
                  ELSE IF p[1] = "input" THEN INP ELSE IF p[1] = "output" THEN OUT
                  ELSE IF \E m \in mods : Prefix(m, p) THEN CHOOSE m \in mods : Prefix(m, p) ELSE NoOwner
Inner(mods, p) == Drop(p, Len(Owner(mods, p)))
WellFormed(mods, conn) ==
  /\ \A i \in 1..Len(conn) : Owner(mods, conn[i].f) \in mods \cup {INP} /\ Owner(mods, conn[i].t) \in mods \cup {OUT}
OuterEdges(mods, conn) == {<<Owner(mods, conn[i].f), Owner(mods, conn[i].t)>> : i \in 1..Len(conn)}

(* ---- resolution: nodes between input and output ---- *)
RECURSIVE Closure(_, _, _)
Closure(S, E, n) == IF n = 0 THEN S ELSE Closure(S \cup {e[2] : e \in {x \in E : x[1] \in S}}, E, n - 1)
Reverse(E) == {<<e[2], e[1]>> : e \in E}
Between(E) == LET N == Cardinality({e[1] : e \in E} \cup {e[2] : e \in E}) + 1
              IN Closure({INP}, E, N) \cap Closure({OUT}, Reverse(E), N)
Sources(E, n) == {e[1] : e \in {x \in E : x[2] = n}}
(* n depends on itself, in n steps *)
OnCycle(E, n) == n \in Closure({e[2] : e \in {x \in E : x[1] = n}}, E, Cardinality(E) + 1)
Resolvable(E) == LET B == Between(E) IN
  /\ OUT \in B /\ INP \in B
  /\ \A n \in B : Sources(E, n) \subseteq B
  /\ \A n \in B : ~OnCycle(E, n)
(* some cycle that the result does not depend on: refusing and ignoring it are both allowed *)
DeadCycle(E) == \E n \in {e[1] : e \in E} : n \notin Between(E) /\ OnCycle(E, n)
ValidOrder(E, ord) ==
  /\ Len(ord) = Cardinality(Between(E)) /\ Range(ord) = Between(E)
  /\ ord[1] = INP /\ ord[Len(ord)] = OUT
  /\ \A i \in 1..Len(ord) : \A s \in Sources(E, ord[i]) : \E j \in 1..(i - 1) : ord[j] = s

(* ---- shorthand: making target places explicit.  "*" stands for a fresh unique key ---- *)
Fresh == "*"
Empties(G) == {i \in 1..Len(G) : G[i].p = << >>}
Heads(G) == {G[i].p[1] : i \in 1..Len(G) \ Empties(G)}
Nth(G, i) == Cardinality({j \in Empties(G) : j <= i})
Taken(H) == {Digits[h] : h \in H}
FreeIndex(H, n) == CHOOSE k \in 0..(n + Cardinality(H)) : k \notin Taken(H) /\ Cardinality({x \in 0..k : x \notin Taken(H)}) = n
(* G: sequence of [id, p]; result: function id -> path *)
RECURSIVE Expand(_)
Sub(G, h) == LET idx == {i \in 1..Len(G) : G[i].p # << >> /\ G[i].p[1] = h}
                 F[i \in 0..Len(G)] == IF i = 0 THEN << >> ELSE IF i \in idx THEN Append(F[i - 1], [id |-> G[i].id, p |-> Tail(G[i].p)]) ELSE F[i - 1]
             IN F[Len(G)]
Expand(G) ==
  IF Len(G) = 1 THEN [x \in {G[1].id} |-> G[1].p]
  ELSE LET H == Heads(G)
           words == \E h \in H : ~IsDigit(h)
           e == [x \in {G[i].id : i \in Empties(G)} |->
                   LET i == CHOOSE j \in 1..Len(G) : G[j].id = x
                   IN IF words THEN <<Fresh>> ELSE <<Name(FreeIndex(H, Nth(G, i)))>>]
           sub == [h \in H |-> Expand(Sub(G, h))]
       IN [x \in {G[i].id : i \in 1..Len(G)} |->
             IF x \in DOMAIN e THEN e[x]
             ELSE LET h == G[CHOOSE j \in 1..Len(G) : G[j].id = x].p[1] IN <<h>> \o sub[h][x]]
ExpandPaths(ps) == LET r == Expand([i \in 1..Len(ps) |-> [id |-> i, p |-> ps[i]]]) IN [i \in 1..Len(ps) |-> r[i]]
Into(mods, conn, o) == LET F[i \in 0..Len(conn)] == IF i = 0 THEN << >>
                             ELSE IF Owner(mods, conn[i].t) = o THEN Append(F[i - 1], [id |-> i, p |-> Inner(mods, conn[i].t)]) ELSE F[i - 1]
                       IN F[Len(conn)]
(* the explicit connections: same sources, explicit targets, in the written order *)
Concrete(mods, conn) ==
  LET tgt == [o \in {Owner(mods, conn[i].t) : i \in 1..Len(conn)} |-> Expand(Into(mods, conn, o))]
  IN [i \in 1..Len(conn) |-> [f |-> conn[i].f, t |-> LET o == Owner(mods, conn[i].t) IN o \o tgt[o][i]]]
HasFresh(cc) == \E i \in 1..Len(cc) : Fresh \in Range(cc[i].t)
(* an observed set of explicit connections `got` (sequence) is exactly `cc`, fresh keys being free names *)
Front(p) == SubSeq(p, 1, Len(p) - 1)
Fixed(cc) == {<<cc[i].f, cc[i].t>> : i \in {j \in 1..Len(cc) : Fresh \notin Range(cc[j].t)}}
FreshIdx(cc) == {j \in 1..Len(cc) : Fresh \in Range(cc[j].t)}
SameConcrete(cc, got) ==
  LET G == {<<got[i].f, got[i].t>> : i \in 1..Len(got)}
      rest == {i \in 1..Len(got) : <<got[i].f, got[i].t>> \notin Fixed(cc)}
      key(c) == <<c.f, Front(c.t)>>
  IN /\ Len(got) = Len(cc) /\ Cardinality(G) = Len(got)
     /\ Cardinality({got[i].t : i \in 1..Len(got)}) = Len(got)
     /\ Fixed(cc) \subseteq G
     /\ Cardinality(rest) = Cardinality(FreshIdx(cc))
     /\ \A i \in rest : Len(got[i].t) > 1
     /\ \A i \in rest : Cardinality({j \in rest : key(got[j]) = key(got[i])}) = Cardinality({j \in FreshIdx(cc) : key(cc[j]) = key(got[i])})
     /\ \A i \in rest : \A e \in Fixed(cc) : ~Prefix(got[i].t, e[2])

(* ---- values and evaluation ---- *)
P == 30011
Leaf(x) == [t |-> "x", x |-> x]
NoneV == [t |-> "n"]
KeyOrd == <<"a", "b", "x", "y", "foo", "x1", "0", "1", "2", "3", "output", "input", "k">>
Code(k) == IF \E i \in 1..Len(KeyOrd) : KeyOrd[i] = k THEN CHOOSE i \in 1..Len(KeyOrd) : KeyOrd[i] = k ELSE 99
RECURSIVE Hash(_)
RECURSIVE HashD(_, _)
RECURSIVE HashL(_, _)
Hash(v) == CASE v.t = "x" -> v.x % P [] v.t = "n" -> 1 [] v.t = "d" -> (HashD(v.k, v.c) + 29) % P [] OTHER -> (HashL(v.c, 1) + 17) % P
HashD(k, c) == IF k = << >> THEN 0 ELSE ((((Code(Head(k)) * 37 + 11) * ((Hash(Head(c)) + 3) % P)) % P) + HashD(Tail(k), Tail(c))) % P
HashL(c, i) == IF c = << >> THEN 0 ELSE ((((i * 53 + 5) * ((Hash(Head(c)) + 2) % P)) % P) + HashL(Tail(c), i + 1)) % P
Mix(m, v) == LET s == Hash(v)
                 o(j) == Leaf((m.mul * s + j * m.add + j - 1) % P)
             IN CASE m.out = "a" -> o(1)
                  [] m.out = "d" -> [t |-> "d", k |-> <<"a", "b">>, c |-> <<o(1), o(2)>>]
                  [] m.out = "t" -> [t |-> "l", c |-> <<o(1), o(2)>>]
                  [] OTHER -> [t |-> "d", k |-> <<"a", "b">>, c |-> <<o(1), [t |-> "l", c |-> <<o(2), o(3)>>]>>]
(* reading part of a value; Missing if there is no such part *)
Missing == [t |-> "?"]
RECURSIVE Part(_, _)
Part(v, p) ==
  IF p = << >> THEN v
  ELSE CASE v.t = "d" -> IF Head(p) \in Range(v.k) THEN Part(v.c[CHOOSE i \in 1..Len(v.k) : v.k[i] = Head(p)], Tail(p)) ELSE Missing
         [] v.t = "l" -> IF IsDigit(Head(p)) /\ Digits[Head(p)] < Len(v.c) THEN Part(v.c[Digits[Head(p)] + 1], Tail(p)) ELSE Missing
         [] OTHER -> Missing
(* the tree assembled from explicit places: S a set of <<path, value>> *)
RECURSIVE Assemble(_)
MaxI(S) == CHOOSE x \in S : \A y \in S : y <= x
RECURSIVE SetSeq(_)
SetSeq(S) == IF S = {} THEN << >> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o SetSeq(S \ {x})
Assemble(S) ==
  IF \E e \in S : e[1] = << >> THEN (CHOOSE e \in S : e[1] = << >>)[2]
  ELSE LET H == {e[1][1] : e \in S}
           at(h) == Assemble({<<Tail(e[1]), e[2]>> : e \in {x \in S : x[1][1] = h}})
       IN IF \A h \in H : IsDigit(h)
          THEN [t |-> "l", c |-> [i \in 1..(MaxI({Digits[h] : h \in H}) + 1) |-> IF Name(i - 1) \in H THEN at(Name(i - 1)) ELSE NoneV]]
          ELSE LET ks == SetSeq(H) IN [t |-> "d", k |-> ks, c |-> [i \in 1..Len(ks) |-> at(ks[i])]]
RECURSIVE EqV(_, _)
EqV(a, b) == /\ a.t = b.t
             /\ CASE a.t = "x" -> a.x = b.x
                  [] a.t = "d" -> Range(a.k) = Range(b.k) /\ Len(a.k) = Len(b.k)
                                  /\ \A i \in 1..Len(a.k) : EqV(a.c[i], b.c[CHOOSE j \in 1..Len(b.k) : b.k[j] = a.k[i]])
                  [] a.t = "l" -> Len(a.c) = Len(b.c) /\ \A i \in 1..Len(a.c) : EqV(a.c[i], b.c[i])
                  [] OTHER -> TRUE
(* g: [mods: sequence of [p, kind, ...], conn];  the value a node delivers *)
ModPaths(g) == {g.mods[i].p : i \in 1..Len(g.mods)}
ModAt(g, p) == g.mods[CHOOSE i \in 1..Len(g.mods) : g.mods[i].p = p]
RECURSIVE EvalG(_, _)
RECURSIVE NodeValue(_, _, _, _)
RECURSIVE Apply(_, _)
Edges(g) == OuterEdges(ModPaths(g), g.conn)
RECURSIVE Chain(_, _)
Chain(ms, v) == IF ms = << >> THEN v ELSE Chain(Tail(ms), IF v.t = "?" THEN v ELSE Apply(Head(ms), v))
RECURSIVE Bad(_)                    \* a part that does not exist was asked for somewhere below
Bad(v) == v.t = "?" \/ (v.t \in {"d", "l"} /\ \E i \in 1..Len(v.c) : Bad(v.c[i]))
Apply(m, v) == IF Bad(v) THEN Missing
               ELSE CASE m.kind = "mix" -> Mix(m, v) [] m.kind = "seq" -> Chain(m.ms, v) [] OTHER -> EvalG(m.g, v)
Inputs(g, cc, o, vals) ==
  Assemble({<<Drop(cc[i].t, Len(o)), Part(vals[Owner(ModPaths(g), cc[i].f)], Inner(ModPaths(g), cc[i].f))>>
            : i \in {j \in 1..Len(cc) : Owner(ModPaths(g), cc[j].t) = o}})
(* evaluate any ready node until the output is there *)
NodeValue(g, cc, todo, vals) ==
  IF OUT \in DOMAIN vals THEN vals[OUT]
  ELSE LET n == CHOOSE x \in todo : Sources(Edges(g), x) \subseteq DOMAIN vals
           v == IF n = OUT THEN Inputs(g, cc, n, vals) ELSE Apply(ModAt(g, n), Inputs(g, cc, n, vals))
       IN NodeValue(g, cc, todo \ {n}, vals @@ (n :> v))
EvalG(g, v) ==
  IF ~WellFormed(ModPaths(g), g.conn) THEN Missing
  ELSE IF ~Resolvable(Edges(g)) THEN Missing
  ELSE NodeValue(g, Concrete(ModPaths(g), g.conn), Between(Edges(g)) \ {INP}, (INP :> v))
=============================================================================
