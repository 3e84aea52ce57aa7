--------------------------- MODULE LeafwiseTrace ---------------------------
(* Judges recorded calls of the array utilities: op, args, refused, and the result: r (tree), r2 (second tree), b (boolean), n (number), ss (shapes), dt (types).
   Entries of r are multiplied by E.den. *)
EXTENDS Leafwise, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l, bad
tv == <<tid, l, bad>>
T == Traces[tid]
Ev == T.ev
E == Ev[l]
More == l <= Len(Ev)
TraceInit == tid \in 1..Len(Traces) /\ l = 1 /\ bad = ""
Reject(why) == bad' = why /\ PrintT(<<"REJECT", tid, l, why>>) /\ UNCHANGED <<tid, l>>
A == E.a
B == E.b2
Want == CASE E.op = "add" -> Pairwise(A, B, Add) [] E.op = "sub" -> Pairwise(A, B, Sub) [] E.op = "mul" -> Pairwise(A, B, Mul)
          [] E.op = "div" -> Pairwise(A, B, Quotient4)
          [] E.op = "neg" -> All(A, LAMBDA z : Scale(-1, z))
          [] E.op = "abs" -> All(A, LAMBDA z : <<RootOf(Sqr(z)), 0>>)
          [] E.op = "abs_sqr" -> All(A, LAMBDA z : <<Sqr(z), 0>>)
          [] E.op = "sqrt" -> All(A, LAMBDA z : <<RootOf(z[1]), 0>>)
          [] E.op = "abs_sqrt" -> All(A, LAMBDA z : <<RootOf(RootOf(Sqr(z))), 0>>)
          [] E.op = "pow" -> All(A, LAMBDA z : Power(z, E.k))
          [] E.op = "scalar_add" -> All(A, LAMBDA z : Add(z, E.z))
          [] E.op = "scalar_mul" -> All(A, LAMBDA z : Mul(z, E.z))
          [] E.op = "concatenate" -> Concat(E.ts, E.ax)
          [] E.op = "batch_leaves" -> Batch(A, E.size, E.k, E.len, E.ax)
          [] E.op = "pytree_split" -> Pieces(A, E.size, E.ax)
          [] E.op \in {"astype", "safecast"} -> IF E.real THEN All(A, LAMBDA z : <<z[1], 0>>) ELSE A
          [] OTHER -> A
Trees3 == {"add", "sub", "mul", "div", "neg", "abs", "abs_sqr", "sqrt", "abs_sqrt", "pow", "scalar_add", "scalar_mul", "concatenate", "batch_leaves", "pytree_split", "astype", "safecast"}
Refuse == \/ E.op \in {"add", "sub", "mul", "div"} /\ Form(A) # Form(B)
          \/ E.op = "concatenate" /\ (\E i \in 1..Len(E.ts) : Form(E.ts[i]) # Form(E.ts[1]))
          \/ E.op = "safecast" /\ E.real /\ E.cplx
Fits(t, u, n) == t.s = u.s /\ \E p \in Perms(n) : u.v = Moved(t, E.ax, p).v
Shuffled ==
  LET la == Leaves(A)  lr == Leaves(E.r)  n == la[1].s[Along(la[1], E.ax)] IN
  Form(A) = Form(E.r) /\
  IF E.ia THEN \A i \in 1..Len(la) : SameLines(la[i], lr[i], E.ax)
  ELSE IF E.il THEN \A i \in 1..Len(la) : Fits(la[i], lr[i], n)
  ELSE \E p \in Perms(n) : \A i \in 1..Len(la) : Same(lr[i], Moved(la[i], E.ax, p))
Truth == CASE E.op = "has_uniform_leaf_shapes" -> Uniform(A, E.sel)
           [] E.op = "uniform_leaf_shapes_equal" -> Uniform(A, E.sel) /\ Uniform(B, E.sel) /\ ShapesAt(A, E.sel)[1] = ShapesAt(B, E.sel)[1]
           [] E.op = "shapes_equal" -> Form(A) = Form(B) /\ ShapesAt(A, E.sel) = ShapesAt(B, E.sel)
           [] E.op = "all_equal" -> Same(A, B)
           [] E.op = "all_close" -> Form(A) = Form(B) /\ E.gap < 2                 \* gap: 0 equal, 1 within, 2 beyond the tolerance
           [] E.op = "any" -> \E t \in ToSet(Leaves(A)) : t.v[1] # Zero
           [] OTHER -> LET ls == Leaves(A) IN                                       \* is_single_leaf
              /\ Len(ls) = 1
              /\ E.nd >= 0 => Len(ls[1].s) = E.nd
              /\ E.sh # <<-9>> => Len(E.sh) = Len(ls[1].s) /\ \A i \in 1..Len(E.sh) : E.sh[i] \in {-1, ls[1].s[i]}
RECURSIVE Total(_)
Total(s) == IF s = << >> THEN Zero ELSE Add(s[1], Total(Tail(s)))
Wrong ==
  IF Refuse THEN IF E.refused THEN "" ELSE "trees that do not fit were accepted by " \o E.op
  ELSE IF E.refused THEN E.op \o " failed: " \o E.msg
  ELSE IF ~E.exact THEN "entries are not the ones defined for " \o E.op
  ELSE CASE E.op \in Trees3 -> IF ~Same(E.r, Want) THEN E.op \o (IF Form(E.r) = Form(Want) THEN " has a wrong result" ELSE " changed the structure")
                               ELSE IF E.op = "pytree_split" /\ (Remains(A, E.size, E.ax) # E.has2 \/ (E.has2 /\ ~Same(E.r2, Left(A, E.size, E.ax)))) THEN "the remainder of the split is wrong"
                               ELSE IF E.op \in {"astype", "safecast"} /\ ToSet(E.dt) # {E.want} THEN "the type is not the one asked for" ELSE ""
         [] E.op = "random_permute_leaves" -> IF Shuffled THEN IF E.again THEN "" ELSE "the same key gave another order" ELSE "the order is not a permutation of the kind asked for"
         [] E.op = "mean" -> LET ls == Leaves(A)  m == SumSeq([i \in 1..Len(ls) |-> Len(ls[i].v)]) IN
              IF E.n = m /\ E.z = Total(FlattenSeq([i \in 1..Len(ls) |-> ls[i].v])) THEN "" ELSE "the mean is wrong"
         [] E.op = "get_shapes" -> IF E.ss = ShapesAt(A, E.sel) /\ E.form THEN "" ELSE "the shapes are wrong"
         [] OTHER -> IF E.b = Truth THEN "" ELSE E.op \o " gave the wrong answer"
Consume == More /\ bad = "" /\ (LET w == Wrong IN IF w # "" THEN Reject(w) ELSE l' = l + 1 /\ UNCHANGED <<tid, bad>>)
Finish == ~More /\ bad = "" /\ bad' = "end" /\ PrintT(<<"ACCEPT", tid>>) /\ UNCHANGED <<tid, l>>
TraceNext == Consume \/ Finish
TraceSpec == TraceInit /\ [][TraceNext]_tv
=============================================================================
