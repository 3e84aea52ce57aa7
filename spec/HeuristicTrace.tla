--------------------------- MODULE HeuristicTrace ---------------------------
(* Judges recorded histories of calibrated models.  T.outs: the output polynomials; T.leaf[o]: the output leaf component o is in.
   Events: cal  C (configuration), X, unc (<< >> or one per sample), Y[sample][output]; pon, ion, don: which sensitivities are on;
                bias, biasat
           eval X, unc, and per sample and output, in 1/1024:  P, I (raw), Pn, In (normalised), u;  D, Dn per sample;  y2: twice the prediction
             (capped at 2^28: normalising by next to nothing)
           pass (saved and loaded)       exc  msg *)
EXTENDS Heuristic, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l, bad, cal, norm
tv == <<tid, l, bad, cal, norm>>
T == Traces[tid]
Ev == T.ev
E == Ev[l]
More == l <= Len(Ev)
Outs == 1..Len(T.outs)
TraceInit == tid \in 1..Len(Traces) /\ l = 1 /\ bad = "" /\ cal = << >> /\ norm = << >>
Reject(why) == bad' = why /\ PrintT(<<"REJECT", tid, l, why>>) /\ UNCHANGED <<tid, l, cal, norm>>
Go == l' = l + 1 /\ UNCHANGED <<tid, bad>>
UncAt(e, n) == IF e.unc = << >> THEN << >> ELSE e.unc[n]
Per(e, F(_, _)) == [o \in Outs |-> [n \in 1..Len(e.X) |-> F(o, n)]]
CalEv ==
  LET C == E.C
      P == IF E.pon THEN Per(E, LAMBDA o, n : SParam(C, T.outs[o], E.X[n])) ELSE << >>
      I == IF E.ion THEN Per(E, LAMBDA o, n : SInput(C, T.outs[o], E.X[n], UncAt(E, n))) ELSE << >>
      D == IF E.don THEN Mad4([n \in 1..Len(E.X) |-> SDist(C, E.X[n])]) ELSE 0
  IN /\ cal' = E
     /\ norm' = [p |-> IF E.pon THEN [o \in Outs |-> Mad4(P[o])] ELSE << >>, i |-> IF E.ion THEN [o \in Outs |-> Mad4(I[o])] ELSE << >>, d |-> D]
     /\ Go
(* g / 1024 is a / b, up to rounding and an error of e in b; large numbers are halved first *)
RECURSIVE Is(_, _, _, _)
Is(g, a, b, e) == IF b > 4096 \/ a > 1000000 THEN Is(g, a \div 2, b \div 2, 1 + (e \div 2))
                  ELSE Abs((g * b) - (a * 1024)) <= (2 * b) + (e * (Abs(g) + 1024)) + (Abs(a) \div 16)
Solid(ms, o) == \A q \in Outs : T.leaf[q] = T.leaf[o] => ms[q] > 0
Resid(o) == [k \in 1..Len(cal.X) |-> cal.Y[k][o] - Value(T.outs[o], cal.C.theta, cal.X[k])]
Wrong(n, o) ==
  LET C == cal.C  x == E.X[n]
      p == IF cal.pon THEN SParam(C, T.outs[o], x) ELSE 0
      i == IF cal.ion THEN SInput(C, T.outs[o], x, UncAt(E, n)) ELSE 0 IN
  IF E.y2[n][o] # (2 * Value(T.outs[o], C.theta, x)) + Bias2(cal.bias, cal.biasat, cal.X, Resid(o), x) THEN "the corrected prediction is wrong"
  ELSE IF cal.pon /\ ~Is(E.P[n][o], p, Cardinality(Chosen(C)), 0) THEN "the parameter sensitivity is wrong"
  ELSE IF cal.ion /\ ~Is(E.I[n][o], i, 16 * (IF Smooth(C) = {} THEN 1 ELSE Cardinality(Smooth(C))), 0) THEN "the input sensitivity is wrong"
  ELSE IF cal.pon /\ Solid(norm.p, o) /\ ~Is(E.Pn[n][o], 4 * p, norm.p[o], 0) THEN "the normalised parameter sensitivity is wrong"
  ELSE IF cal.ion /\ Solid(norm.i, o) /\ ~Is(E.In[n][o], 4 * i, norm.i[o], 0) THEN "the normalised input sensitivity is wrong"
  ELSE LET s == (IF cal.pon THEN E.Pn[n][o] ELSE 0) + (IF cal.ion THEN E.In[n][o] ELSE 0) + (IF cal.don THEN E.Dn[n] ELSE 0) IN
       IF E.u[n][o] < 268435456 /\ Abs(s - E.u[n][o]) > 4 + (s \div 20000) THEN "the uncertainty is not the sum of the sensitivities" ELSE ""
WrongD(n) ==
  LET d == SDist(cal.C, E.X[n]) IN
  IF ~Is(E.D[n], d, 16384 * Width(cal.C), 16) THEN "the distance is wrong"
  ELSE IF norm.d >= 400 /\ ~Is(E.Dn[n], 4 * d, norm.d, 16) THEN "the normalised distance is wrong"
  ELSE ""
EvalEv ==
  LET ws == {<<n, o>> \in (1..Len(E.X)) \X Outs : Wrong(n, o) # ""}
      ds == IF cal.don THEN {n \in 1..Len(E.X) : WrongD(n) # ""} ELSE {} IN
  IF ds # {} THEN LET n == CHOOSE n \in ds : TRUE IN Reject(WrongD(n) \o ": sample " \o ToString(n) \o " gives " \o ToString(<<E.D[n], E.Dn[n]>>) \o "/1024, of " \o ToString(<<SDist(cal.C, E.X[n]), Width(cal.C), norm.d>>))
  ELSE IF ws # {} THEN LET w == CHOOSE w \in ws : TRUE IN Reject(Wrong(w[1], w[2]) \o ": sample " \o ToString(w[1]) \o " output " \o ToString(w[2]))
  ELSE Go /\ UNCHANGED <<cal, norm>>
Consume == More /\ bad = "" /\
  CASE E.e = "cal" -> CalEv [] E.e = "eval" -> EvalEv [] E.e = "pass" -> Go /\ UNCHANGED <<cal, norm>>
    [] OTHER -> Reject("failed: " \o E.msg)
Finish == ~More /\ bad = "" /\ bad' = "end" /\ PrintT(<<"ACCEPT", tid>>) /\ UNCHANGED <<tid, l, cal, norm>>
TraceNext == Consume \/ Finish
TraceSpec == TraceInit /\ [][TraceNext]_tv
=============================================================================
