------------------------------- MODULE Values -------------------------------
(* Parameters, state and precision of a model.
   An object: par   name of the parameter values (initial values of a seed, or values written)
              low   are their low-order bits (beyond 32-bit precision) still there
              prec  32, 64, or 0 (as compiled: not known)
              st    name of the state: <<written or initial, then one token per change>>, sprec its precision *)
EXTENDS Integers, Sequences, TLC
Fresh(k) == [par |-> <<"init", k>>, low |-> TRUE, prec |-> 0, st |-> <<"init">>, sprec |-> 0]
Round(st) == IF Len(st) = 1 \/ st[Len(st)] = "r" THEN st ELSE Append(st, "r")
CanCast(x64, p) == p = 32 \/ x64
Cast(o, p) == IF p = 64 THEN [o EXCEPT !.prec = 64, !.sprec = 64]
              ELSE [o EXCEPT !.low = FALSE, !.prec = 32, !.sprec = 32, !.st = Round(@)]
Write(o, v, p) == [o EXCEPT !.par = <<"value", v>>, !.low = (p = 64), !.prec = p]
WriteState(o, v, p) == [o EXCEPT !.st = <<"value" \o v>>, !.sprec = p]
Feed(o) == [o EXCEPT !.st = @ \o << "fed", ToString(o.par[2]), ToString(o.low), ToString(o.prec), ToString(o.sprec) >>]
(* what an object's answers may depend on, to the last bit and up to rounding *)
Exactly(o) == <<o.par, o.low, o.prec, o.st, o.sprec>>
Roughly(o) == <<o.par, o.st>>
=============================================================================
