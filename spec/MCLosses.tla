------------------------------ MODULE MCLosses ------------------------------
(* Laws of the losses on all small cases: no loss is negative, it is zero exactly for a perfect prediction, every sample counts
   alike, the derivative is that of the average (difference quotients), equal batches reproduce the whole, and a short last
   batch keeps the pass between the extremes of the samples. *)
EXTENDS Losses, TLC
CONSTANTS D
VARIABLE c
Names == {"mse", "mae", "pseudo_huber", "mse_unc", "mae_unc", "mre", "mre_unc", "mrd", "mrd_unc"}
C1(x) == <<x, 0>>
Init == \E nm \in Names, p \in [1..3 -> [1..2 -> D]], y \in {<<<<1, 2>>, <<3, 1>>, <<2, 2>>>>, <<<<-1, 3>>, <<2, 2>>, <<1, -2>>>>}, u \in {1, 2} :
          c = [loss |-> nm, h |-> 2, P |-> [i \in 1..3 |-> [e \in 1..2 |-> C1(p[i][e])]], Y |-> [i \in 1..3 |-> [e \in 1..2 |-> C1(y[i][e])]], U |-> [i \in 1..3 |-> [e \in 1..2 |-> u]]]
Next == UNCHANGED c
Perm(f) == [i \in 1..3 |-> f[(i % 3) + 1]]
Positive == Full(c) >= 0 /\ (c.P = c.Y => Full(c) = 0)
Alike == LET g == [c EXCEPT !.P = Perm(@), !.Y = Perm(@), !.U = Perm(@)] IN Full(g) = Full(c)
Between == LET f == OfSample(c) S == {f[i] \div 2 : i \in 1..3} IN \A v \in Pass(c, 2) : v >= Min(S) - 2 /\ v <= Max(S) + 2
Whole == Pass(c, 1) = {Full(c)} /\ Pass(c, 3) = {Full(c)}
(* f(p+1) - f(p-1) against the slopes at p-1, p, p+1: the quotient lies between the extreme slopes (convex losses) *)
At(i, e, h) == [c EXCEPT !.P[i][e] = <<c.P[i][e][1] + h, 0>>]
Convex == Base(c) = "mrd" \/ \A i \in 1..3, e \in 1..2 :
            LET q == SumOver(OfSample(At(i, e, 1)), 1..3) - SumOver(OfSample(At(i, e, -1)), 1..3)
                s(h) == 6 * Slope(At(i, e, h), i, e, 3) IN 2 * s(-1) - 64 <= q /\ q <= 2 * s(1) + 64
=============================================================================
