------------------------------- MODULE Shapes -------------------------------
(* Which data a model accepts.  Data types (structure and per-sample shapes) are numbered; a model is compiled for one of
   them, or for none.  A call with data of another type, or before compilation, is refused and changes nothing.
   Out[j] is the type that data of type j has after evaluation: declared before, after and without compilation alike,
   and the one evaluation then produces, for every number of samples. *)
EXTENDS Integers, Sequences
Nothing == [ready |-> FALSE, for |-> 0]
Compiled(j) == [ready |-> TRUE, for |-> j]
Edited(o) == [o EXCEPT !.ready = FALSE]
Accepts(o, j) == o.ready /\ o.for = j
=============================================================================
