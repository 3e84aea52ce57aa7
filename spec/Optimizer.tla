----------------------------- MODULE Optimizer -----------------------------
(* The Adam rule on fixed point numbers (U units make one).  An entry of a parameter array carries
     m = <<re, im>>  running mean of the gradient      v  running mean of its squared magnitude      n  epochs it has been trained for
   Options o: b1, b2 (quarters), eps (sixteenths), clip (units of one); learning rates in sixteenths.
   A gradient is <<df/dre, df/dim>> in units of one; a real entry has im = 0 throughout. *)
EXTENDS Integers, Sequences, FiniteSets
U == 4096
Abs(a) == IF a < 0 THEN -a ELSE a
Round(a, b) == IF a >= 0 THEN (a + (b \div 2)) \div b ELSE -((-a + (b \div 2)) \div b)
Lowest(a, b) == IF a < b THEN a ELSE b
Clip(g, c) == IF g > c THEN c ELSE IF g < -c THEN -c ELSE g
Decay(b, old, new) == Round((b * old) + ((4 - b) * new), 4)
RECURSIVE Power(_, _)
Power(b, n) == IF n = 0 THEN U ELSE Round(Power(b, n - 1) * b, 4)
Correct(y, b, n) == IF b = 0 THEN y ELSE Round(y * Round(U * 1024, U - Power(b, n + 1)), 1024)   \* the mean started at zero
RECURSIVE Bisect(_, _, _)
Bisect(a, lo, hi) == IF hi - lo <= 1 THEN lo ELSE LET c == (lo + hi) \div 2 IN IF c * c <= a THEN Bisect(a, c, hi) ELSE Bisect(a, lo, c)
Root(y) == Bisect(y * 256, 0, 32768)                        \* of y/U, in 1/1024
New == [m |-> <<0, 0>>, v |-> 0, n |-> 0]
Moments(s, g, o) ==
  LET d == <<Clip(g[1], o.clip), Clip(g[2], o.clip)>> IN
  [m |-> <<Decay(o.b1, s.m[1], d[1] * U), Decay(o.b1, s.m[2], d[2] * U)>>,
   v |-> Decay(o.b2, s.v, ((d[1] * d[1]) + (d[2] * d[2])) * U), n |-> s.n]
Step(s, o, lr) ==                                           \* s after Moments; what is subtracted from the entry
  LET D == Root(Correct(s.v, o.b2, s.n)) + (64 * o.eps)
      part(m) == IF m = 0 THEN 0 ELSE Round(Correct(m, o.b1, s.n) * lr * 64, D) IN <<part(s.m[1]), part(s.m[2])>>
(* the updates of one epoch: K batches that all have gradient g *)
RECURSIVE Updates(_, _, _, _, _)
Updates(s, g, o, lr, K) ==
  IF K = 0 THEN [s |-> s, d |-> <<0, 0>>, w |-> 0]
  ELSE LET s1 == Moments(s, g, o)  d == Step(s1, o, lr)  r == Updates(s1, g, o, lr, K - 1) IN
       [s |-> r.s, d |-> <<d[1] + r.d[1], d[2] + r.d[2]>>, w |-> Abs(d[1]) + Abs(d[2]) + r.w]
EndEpoch(s) == [s EXCEPT !.n = @ + 1]
=============================================================================
