---------------------------- MODULE ConformalTrace ----------------------------
(* Judges recorded histories of real conformalized models.  Events:
     op     op = new | cal | refused-cal | pass, s, a (calibration name), t, ok, msg
     ask    s, levels, refused, none (no level given: the default), per level answers:
              lo, hi   ranks of the interval ends at some points (dense ranks over the whole history,
                       so that = and <= of the real numbers are = and <= of the ranks)
              mid      the interval is centred on the prediction, nan: something was not a number
              pred     class of the predictions
              on       the points were the calibration set itself: in (covered up to rounding),
                       strict (covered by a margin) and, for exact scores, nq = n times the quantile
     must   what, ok
   cal[s]: name of the last calibration, "" if none.  T.cals[name] = [n, exact, scores]                 *)
EXTENDS Conformal, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l, bad, cal, seen, preds
tv == <<tid, l, bad, cal, seen, preds>>
T == Traces[tid]
Ev == T.ev
E == Ev[l]
More == l <= Len(Ev)
TraceInit == /\ tid \in 1..Len(Traces) /\ l = 1 /\ bad = "" /\ seen = {} /\ preds = {} /\ cal = [s \in 1..3 |-> ""]
Reject(why) == /\ bad' = why /\ PrintT(<<"REJECT", tid, l, why>>) /\ UNCHANGED <<tid, l, cal, seen, preds>>
Adv == l' = l + 1 /\ UNCHANGED <<tid, bad>>
OpEv ==
  CASE E.op = "refused-cal" -> IF E.ok THEN Reject("calibration accepted data that does not fit the model") ELSE Adv /\ UNCHANGED <<cal, seen, preds>>
    [] ~E.ok -> Reject(E.op \o " failed: " \o E.msg)
    [] OTHER -> /\ Adv /\ UNCHANGED <<seen, preds>>
                /\ cal' = CASE E.op = "new" -> [cal EXCEPT ![E.s] = ""]
                            [] E.op = "pass" -> [cal EXCEPT ![E.t] = cal[E.s]]
                            [] E.op = "cal" -> [cal EXCEPT ![E.s] = E.a]
                            [] OTHER -> cal
Leq(p, q) == \A i \in 1..Len(p) : p[i] <= q[i]
Wrong(A) ==      \* what is wrong with one answer, "" if nothing
  LET c == cal[E.s]
      C == T.cals[c]
      mine == {x \in seen : x.c = c /\ x.pts = E.pts}
  IN  IF A.nan THEN "an interval is not a number"
      ELSE IF ~A.mid THEN "the interval is not centred on the prediction"
      ELSE IF \E i \in 1..Len(A.lo) : A.lo[i] > A.hi[i] THEN "the ends of an interval are exchanged"
      ELSE IF \E x \in mine : x.level = A.level /\ (x.lo # A.lo \/ x.hi # A.hi) THEN "the same level gave another interval before, with the same calibration"
      ELSE IF \E x \in mine : x.level <= A.level /\ ~(Leq(x.lo, A.lo) /\ Leq(A.hi, x.hi)) THEN "the interval of a smaller miscoverage does not contain that of a larger one"
      ELSE IF \E x \in mine : x.level >= A.level /\ ~(Leq(A.lo, x.lo) /\ Leq(x.hi, A.hi)) THEN "the interval of a smaller miscoverage does not contain that of a larger one"
      ELSE IF E.pts = "cal" /\ \E i \in 1..Len(A.in) : A.in[i] < Rank(C.n, A.level) \/ A.in[i] * 1000 < C.n * (1000 - A.level) THEN "fewer calibration targets are covered than the level demands"
      ELSE IF E.pts = "cal" /\ \E i \in 1..Len(A.strict) : A.strict[i] > Rank(C.n, A.level) THEN "more calibration targets are covered than the quantile of this calibration covers"
      ELSE IF C.exact /\ \E i \in 1..Len(A.nq) : A.nq[i] # NQ(Sort(C.scores[i]), A.level) THEN "the quantile is not that of the scores of the last calibration"
      ELSE ""
AskEv ==
  LET c == cal[E.s] IN
  IF c = "" THEN IF E.refused THEN Adv /\ UNCHANGED <<cal, seen, preds>> ELSE Reject("an interval was given before calibration")
  ELSE IF E.refused THEN Reject("an interval was refused: " \o E.msg)
  ELSE LET ws == {Wrong(E.ans[i]) : i \in 1..Len(E.ans)} \ {""} IN
    IF ws # {} THEN Reject(CHOOSE w \in ws : TRUE)
    ELSE IF \E p \in preds : p.c = c /\ p.pts = E.pts /\ p.pred # E.pred THEN Reject("the prediction changed though the calibration did not")
    ELSE /\ seen' = seen \cup {[c |-> c, pts |-> E.pts, level |-> E.ans[i].level, lo |-> E.ans[i].lo, hi |-> E.ans[i].hi] : i \in 1..Len(E.ans)}
         /\ preds' = preds \cup {[c |-> c, pts |-> E.pts, pred |-> E.pred]}
         /\ Adv /\ UNCHANGED cal
Consume ==
  /\ More /\ bad = ""
  /\ CASE E.e = "op" -> OpEv
       [] E.e = "ask" -> AskEv
       [] E.e = "must" -> IF E.ok THEN Adv /\ UNCHANGED <<cal, seen, preds>> ELSE Reject(E.what)
       [] OTHER -> Reject("operation failed: " \o E.msg)
Finish == ~More /\ bad = "" /\ bad' = "end" /\ PrintT(<<"ACCEPT", tid>>) /\ UNCHANGED <<tid, l, cal, seen, preds>>
TraceNext == Consume \/ Finish
TraceSpec == TraceInit /\ [][TraceNext]_tv
=============================================================================
