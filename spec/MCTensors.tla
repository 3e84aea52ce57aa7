------------------------------ MODULE MCTensors ------------------------------
(* Programs of structural modules on a small tree, with every entry its own number: no program loses, invents or duplicates an
   entry unless it selects; the last modules undo what they should.  And laws of the algebra over all small matrices (Init with
   prog = laws).  Each program is printed for replay. *)
EXTENDS Tensors, TLC, Json
CONSTANTS Depth
VARIABLES n, prog, lw
vars == <<n, prog, lw>>
Z(i) == <<i, 0>>
Start == Node("d", <<"a", "b">>, <<Leaf(<<2, 1>>, <<Z(1), Z(2)>>), Node("l", <<"0", "1">>, <<Leaf(<<2, 1>>, <<Z(3), Z(4)>>), Leaf(<<2, 1>>, <<Z(5), Z(6)>>)>>)>>)
B0(k) == [m |-> k]
K(p, f, ks) == [m |-> "treekey", form |-> f, paths |-> p, keys |-> ks]
C(o, od, fl, ax) == [m |-> "concat", ordered |-> o, order |-> od, flat |-> fl, axis |-> ax]
Menu == [flatten |-> B0("flatten"), treeflatten |-> B0("treeflatten"),
         key_b |-> K(<< <<"b">> >>, "s", <<>>), key_swap |-> K(<< <<"b", "1">>, <<"a">> >>, "u", <<"0", "1">>),
         key_dict |-> K(<< <<"b">>, <<"a">> >>, "d", <<"p", "q">>), key_0 |-> K(<< <<"0">>, <<"0">> >>, "l", <<"0", "1">>),
         cat |-> C(FALSE, <<>>, TRUE, 0), cat0 |-> C(FALSE, <<>>, FALSE, 0), cat_1 |-> C(FALSE, <<>>, FALSE, -1),
         cat_order |-> C(TRUE, << <<"b", "1">>, <<"a">> >>, FALSE, -2)]
Names == DOMAIN Menu
PathsOf(nm) == LET m == Menu[nm] IN IF m.m = "treekey" THEN ToSet(m.paths) ELSE IF m.m = "concat" /\ m.ordered THEN ToSet(m.order) ELSE {}
There(p) == \E q \in ToSet(Paths(n)) : Len(q) >= Len(p) /\ SubSeq(q, 1, Len(p)) = p
LeafAt(p) == p \in ToSet(Paths(n))
Fits(nm) == LET m == Menu[nm] IN
  /\ \A p \in PathsOf(nm) : There(p) /\ (m.m = "concat" => LeafAt(p))
  /\ m.m = "concat" => n.k # "t" /\ LET ls == IF m.ordered THEN [i \in 1..Len(m.order) |-> Get(n, m.order[i])] ELSE Leaves(n) IN
       m.flat \/ (/\ \A i, j \in 1..Len(ls) : Len(ls[i].s) = Len(ls[j].s)
                  /\ (IF m.axis < 0 THEN Len(ls[1].s) >= -m.axis ELSE Len(ls[1].s) > m.axis)
                  /\ \A i \in 1..Len(ls), d \in 1..Len(ls[1].s) : d # Axis(m.axis, Len(ls[1].s)) => ls[i].s[d] = ls[1].s[d])
Ent == {Zero, One, <<0, 1>>}
M22 == {Leaf(<<2, 2>>, v) : v \in {<<a, b, c, One>> : a \in Ent, b \in Ent, c \in Ent}}
Init == \/ n = Start /\ prog = <<>> /\ lw = <<>>
        \/ n = Start /\ prog = <<"laws">> /\ \E a \in M22, b \in {x \in M22 : x.v[1] # Zero} : lw = <<a, b>>
Next == /\ lw = <<>> /\ Len(prog) < Depth
        /\ \E nm \in Names : Fits(nm) /\ n' = Eval(Menu[nm], n) /\ prog' = Append(prog, nm)
        /\ UNCHANGED lw
        /\ PrintT(<<"BEH", ToJson([prog |-> prog'])>>)
All(t) == FlattenSeq([i \in 1..Len(Leaves(t)) |-> Leaves(t)[i].v])
Selects == \E i \in 1..Len(prog) : prog[i] \in {"key_b", "key_swap", "key_0", "cat_order"}
Keeps == lw = <<>> => (ToSet(All(n)) \subseteq ToSet(All(Start)) /\ (~Selects => Len(All(n)) = 6 /\ ToSet(All(n)) = ToSet(All(Start))))
Consistent == \A i \in 1..Len(Leaves(n)) : Prod(Leaves(n)[i].s) = Len(Leaves(n)[i].v)
A == lw[1]
B == lw[2]
Laws == lw # <<>> =>
  /\ Chain(<<A, B>>) = Contract(<< <<1, 2>>, <<2, 3>> >>, <<A, B>>, <<1, 3>>)
  /\ Dagger(Chain(<<A, B>>)) = Chain(<<Dagger(B), Dagger(A)>>)
  /\ Chain(<<A, B, A>>) = Chain(<<Chain(<<A, B>>), A>>)
  /\ Contract(<< <<1, 2>>, <<2, 3>> >>, <<A, B>>, Inferred(<< <<1, 2>>, <<2, 3>> >>)) = Chain(<<A, B>>)
  /\ Contract(<< <<1, 1>> >>, <<A>>, <<>>) = Leaf(<<>>, <<Add(A.v[1], A.v[4])>>)
  /\ LET ha == Plus(A, Dagger(A)) hb == Plus(B, Dagger(B)) s == Smooth(<<ha, hb>>) IN Dagger(s) = s /\ Smooth(<<hb, ha>>) = Times(<<-1, 0>>, s)
  /\ Join(<<A, B>>, 1).v = A.v \o B.v /\ Build(<<4, 2>>, LAMBDA ix : At(Join(<<Dagger(A), Dagger(B)>>, 2), <<ix[2], ix[1]>>)).v = [i \in 1..8 |-> Conj((A.v \o B.v)[i])]
  /\ Flat(Leaf(<<2, 2>>, Flat(A).v)) = Flat(A) /\ Build(<<2, 2>>, LAMBDA ix : At(A, ix)) = A
=============================================================================
