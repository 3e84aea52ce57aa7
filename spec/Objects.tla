------------------------------ MODULE Objects ------------------------------
(* Model objects and what may tell them apart.

   A slot holds an object.  Its abstract state is a record of components, each a term (a string) that
   says how that component came about:
     par    parameters          st     module state       key    the model's random key
     marks  trainable marks     opt    stored optimizer   ready  compiled or not
   Every observation of an object is a function of the components it may depend on, and of nothing
   else: predictions of par, st, key; parameters of par; marks of marks and ready; and so on.  In
   particular two objects with equal components cannot be told apart by anything done to them later,
   whatever else happened in between and however they got there: built alike, copied, or saved and
   loaded.  Saving, copying, predicting, reading leave every object as it was.                    *)
EXTENDS Integers, Sequences, TLC

VARIABLE obj              \* slot -> component record, or Nothing
Nothing == [alive |-> FALSE, ready |-> FALSE, par |-> "", st |-> "", key |-> "", marks |-> "", opt |-> ""]

Fresh(k) == [alive |-> TRUE, ready |-> FALSE, par |-> "n", st |-> "n", key |-> "k" \o k, marks |-> "n", opt |-> "none"]

(* the first compilation draws the parameters from its seed; a compiled model keeps everything *)
Compiled(o, seed) == IF o.ready THEN o ELSE [o EXCEPT !.ready = TRUE, !.par = "c" \o seed, !.st = "c"]
Trained(o, a, resume) ==
  LET t == "(" \o a \o ";" \o o.par \o ";" \o o.st \o ";" \o o.key \o ";" \o o.marks \o ";"
              \o (IF resume THEN o.opt ELSE "fresh") \o ")"
  IN [o EXCEPT !.par = "tp" \o t, !.st = "ts" \o t, !.key = "tk" \o t, !.opt = "to" \o t]
Marked(o, a)   == [o EXCEPT !.marks = o.marks \o "." \o a]
Assigned(o, a) == [o EXCEPT !.par = "a" \o a \o "(" \o o.par \o ")"]
Cast(o, a)     == [o EXCEPT !.par = "p" \o a \o "(" \o o.par \o ")", !.st = "p" \o a \o "(" \o o.st \o ")"]
Keyed(o, a)    == [o EXCEPT !.key = "k" \o a]
Fed(o, a)      == [o EXCEPT !.st = "u" \o a \o "(" \o o.st \o ";" \o o.par \o ";" \o o.key \o ")"]

(* what may be done with an object in which state *)
Can(o, op) == o.alive /\ (op \in {"train", "resume", "assign", "cast", "feed"} => o.ready) /\ (op = "resume" => o.opt # "none")
After(o, op, a) ==
  CASE op = "compile" -> Compiled(o, a)
    [] op = "train"   -> Trained(o, a, FALSE)
    [] op = "resume"  -> Trained(o, a, TRUE)
    [] op = "mark"    -> Marked(o, a)
    [] op = "assign"  -> Assigned(o, a)
    [] op = "cast"    -> Cast(o, a)
    [] op = "key"     -> Keyed(o, a)
    [] op = "feed"    -> Fed(o, a)
    [] OTHER          -> o                      \* save, copy, predict, read

(* the observations, each with the components it may depend on *)
Aspect(o, f) ==
  f \o "|" \o (CASE f = "par"   -> o.par
                 [] f = "st"    -> o.st
                 [] f = "key"   -> o.key
                 [] f = "marks" -> o.marks \o (IF o.ready THEN "+" ELSE "-")
                 [] f = "opt"   -> o.opt
                 [] f = "shape" -> IF o.ready THEN "+" ELSE "-"
                 [] f = "kind"  -> o.marks \o (IF o.ready THEN "+" ELSE "-")
                 [] f = "out"   -> o.par \o "|" \o o.st \o "|" \o o.key)
=============================================================================
