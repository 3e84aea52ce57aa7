---------------------------- MODULE MCOptimizer ----------------------------
(* Laws of the update rule along every short history of gradients, epochs and runs (fresh, resumed, frozen). *)
EXTENDS Optimizer, TLC
CONSTANTS Depth, Top
Values == {-3} \cup 0..Top
VARIABLES o, s, flip, turned, last, lastf, lastt, gs, K
vars == <<o, s, flip, turned, last, lastf, lastt, gs, K>>
LR == 16
Options == [b1 : {0, 2, 3}, b2 : {0, 1, 3}, eps : {4, 16}, clip : {2}]
Init == /\ o \in Options /\ K \in {1, 2} /\ s = New /\ flip = New /\ turned = New /\ gs = << >>
        /\ last = <<0, 0>> /\ lastf = <<0, 0>> /\ lastt = <<0, 0>>
Epoch(g) == LET a == Updates(s, g, o, LR, K)  b == Updates(flip, <<-g[1], -g[2]>>, o, LR, K)  c == Updates(turned, <<-g[2], g[1]>>, o, LR, K) IN
   /\ s' = EndEpoch(a.s) /\ flip' = EndEpoch(b.s) /\ turned' = EndEpoch(c.s)
   /\ last' = a.d /\ lastf' = b.d /\ lastt' = c.d /\ gs' = Append(gs, g) /\ UNCHANGED <<o, K>>
Fresh == /\ gs # << >> /\ s' = New /\ flip' = New /\ turned' = New /\ gs' = << >> /\ last' = <<0, 0>> /\ lastf' = <<0, 0>> /\ lastt' = <<0, 0>> /\ UNCHANGED <<o, K>>
Next == \/ Len(gs) < Depth /\ \E g \in Values \X (Values \cap {0, 1}) : Epoch(g)
        \/ Fresh
Odd == last = <<-lastf[1], -lastf[2]>>                               \* the opposite slope takes the opposite step
Turn == lastt = <<-last[2], last[1]>>                                \* rotating a complex parameter rotates its steps
Still == (\A i \in 1..Len(gs) : gs[i] = <<0, 0>>) => last = <<0, 0>>
Steady == (K = 1 /\ Len(gs) > 0 /\ \A i \in 1..Len(gs) : gs[i] = gs[1]) =>      \* constant slope: the correction is exact
   LET g == <<Clip(gs[1][1], 2), Clip(gs[1][2], 2)>>  D == Root(U * ((g[1] * g[1]) + (g[2] * g[2]))) + (64 * o.eps)  e(c) == Round(g[c] * 1024 * U, D) IN
   \A c \in 1..2 : Abs(last[c] - e(c)) <= 8 + (Abs(e(c)) \div 64)
Downhill == (Len(gs) = 1 /\ gs[1] # <<0, 0>>) => \A c \in 1..2 : last[c] * gs[1][c] >= 0 /\ (gs[1][c] # 0 => last[c] # 0)
Counts == s.n = Len(gs)
=============================================================================
