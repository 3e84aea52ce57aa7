---------------------------- MODULE MCGradients ----------------------------
(* Histories of edits, assignments and requests, and what they answer; plus agreement of forward accumulation, reverse
   accumulation and difference quotients on all small models. *)
EXTENDS Gradients, TLC, Json
CONSTANTS Depth, Vals, MaxN, Kinds
VARIABLES par, st, ver, ready, cache, hist      \* cache: for which model the prepared derivative is
mcv == <<par, st, ver, ready, cache, hist>>
Now == <<par, st, ver>>
Init == par = 0 /\ st = 0 /\ ver = 0 /\ ready = TRUE /\ cache = {} /\ hist = <<>>
Log(h) == hist' = Append(hist, h)
NoSet == [op |-> "", w |-> "", mode |-> "", mbs |-> 0, av |-> FALSE, n |-> 0]
Ask(w, mode, mbs, av, n) ==
  /\ ready /\ cache' = cache \cup {<<w, mode, mbs, av>>}
  /\ Log([op |-> "grad", w |-> w, mode |-> mode, mbs |-> mbs, av |-> av, n |-> n]) /\ UNCHANGED <<par, st, ver, ready>>
SetPar == par' = par + 1 /\ Log([NoSet EXCEPT !.op = "par"]) /\ UNCHANGED <<st, ver, ready, cache>>
SetSt == st' = st + 1 /\ Log([NoSet EXCEPT !.op = "st"]) /\ UNCHANGED <<par, ver, ready, cache>>
Edit == ver' = ver + 1 /\ ready' = FALSE /\ cache' = {} /\ Log([NoSet EXCEPT !.op = "edit"]) /\ UNCHANGED <<par, st>>
Compile == ~ready /\ ready' = TRUE /\ Log([NoSet EXCEPT !.op = "compile"]) /\ UNCHANGED <<par, st, ver, cache>>
Next == /\ Len(hist) < Depth
        /\ \/ SetPar \/ SetSt \/ Edit \/ Compile
           \/ \E w \in {"input", "params"}, mode \in {"auto", "fwd", "rev"}, n \in {2, MaxN} : \E mbs \in {0, 1, 2} : \E av \in BOOLEAN : Ask(w, mode, mbs, av, n)
AskChangesNothing == [][hist'[Len(hist')].op = "grad" => Now' = Now /\ ready' = ready]_mcv
NoStale == cache # {} => ready
Dump == Len(hist) = Depth => PrintT(<<"BEH", ToJson(hist)>>)
(* small models: every sequence of up to 3 modules of the given kinds with parameters from Vals *)
V2 == Vals \X Vals
Mod == {[k |-> "lin", W |-> <<r, q>>, b |-> b] : r \in V2, q \in {<<1, 1>>, <<-1, 2>>}, b \in {<<0, 1>>, <<2, -1>>}} \cup
       {[k |-> "sq", a |-> a] : a \in V2} \cup {[k |-> "gate", g |-> g] : g \in Vals}
ModOf(k) == {m \in Mod : m.k = k}
(* accumulated from the output *)
RECURSIVE Back(_, _, _)
Inter(ms, x) == FoldLeft(LAMBDA s, m : Append(s, Ap(m, s[Len(s)])), <<x>>, ms)
Back(ms, xs, i) == IF i > Len(ms) THEN Unit(Len(xs[Len(xs)])) ELSE MatMat(Back(ms, xs, i + 1), DX(ms[i], xs[i]))
Rev(ms, x) == LET xs == Inter(ms, x) IN
   [jx |-> Back(ms, xs, 1), jp |-> [i \in 1..Len(ms) |-> MatMat(Back(ms, xs, i + 1), DP(ms[i], xs[i]))]]
Nudge(v, i, h) == [v EXCEPT ![i] = @ + h]
(* f(x + h e_j) - f(x - h e_j) = 2 h f' for polynomials of degree up to two in x_j *)
Quot(m, x) == \A i \in 1..2, j \in 1..2 : Ap(m, Nudge(x, j, 1))[i] - Ap(m, Nudge(x, j, -1))[i] = 2 * DX(m, x)[i][j]
With(m, q, h) == IF m.k = "lin" THEN (IF q <= 4 THEN [m EXCEPT !.W[(q - 1) \div 2 + 1][((q - 1) % 2) + 1] = @ + h] ELSE [m EXCEPT !.b[q - 4] = @ + h])
                 ELSE [m EXCEPT !.a[q] = @ + h]
QuotP(m, x) == m.k = "gate" \/ \A i \in 1..2 : \A q \in 1..(IF m.k = "lin" THEN 6 ELSE 2) : Ap(With(m, q, 1), x)[i] - Ap(With(m, q, -1), x)[i] = 2 * DP(m, x)[i][q]
Xs == {<<1, 2>>, <<-2, 3>>, <<0, 1>>}
ASSUME \A m \in Mod, x \in Xs : Quot(m, x) /\ QuotP(m, x)
ASSUME \A ks \in Kinds : \A ms \in {s \in [1..Len(ks) -> Mod] : \A i \in 1..Len(ks) : s[i].k = ks[i]} : \A x \in Xs :
          LET f == Run(ms, x) r == Rev(ms, x) IN f.jx = r.jx /\ f.jp = r.jp
=============================================================================
