----------------------------- MODULE EigenTrace -----------------------------
(* Judges answers of the real eigenvalue modules.  T.end, T.by, T.k (0: all), T.kind
   T.spec[leaf][sample]  the spectrum: either given, or (kind pmm) T.diag[matrix] and T.feat[sample], whose affine
   combination is the spectrum (the matrices commute).
   One event:  refused, msg, vals[leaf][sample], ray[leaf][sample] (the eigenvalue each returned vector belongs to;
   a number nobody has if none), orth[leaf][sample], shapes *)
EXTENDS Eigen, Json, IOUtils, TLC
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l, bad
tv == <<tid, l, bad>>
T == Traces[tid]
Ev == T.ev
E == Ev[l]
More == l <= Len(Ev)
TraceInit == tid \in 1..Len(Traces) /\ l = 1 /\ bad = ""
Reject(why) == bad' = why /\ PrintT(<<"REJECT", tid, l, why>>) /\ UNCHANGED <<tid, l>>
Adv == l' = l + 1 /\ UNCHANGED <<tid, bad>>
RECURSIVE Dot(_, _, _)
Dot(f, i, j) == IF i = 0 THEN 0 ELSE Dot(f, i - 1, j) + f[i] * T.diag[i + (IF T.bias THEN 1 ELSE 0)][j]
Affine(f) == [j \in 1..Len(T.diag[1]) |-> (IF T.bias THEN T.diag[1][j] ELSE 0) + Dot(f, Len(f), j)]
Spectrum(a, m) == IF T.affine THEN Affine(T.feat[m]) ELSE T.spec[a][m]
Sizes == IF T.affine THEN <<Len(T.diag[1])>> ELSE [a \in 1..Len(T.spec) |-> Len(T.spec[a][1])]
Leaves == 1..Len(Sizes)
Samples == 1..(IF T.affine THEN Len(T.feat) ELSE Len(T.spec[1]))
K(a) == IF T.k = 0 THEN Sizes[a] ELSE T.k
Wrong(a, m) ==
  LET s == Spectrum(a, m) IN
  IF E.v /\ ~Right(T.end, T.by, s, K(a), E.vals[a][m]) THEN "the eigenvalues are not the requested ones in ascending order"
  ELSE IF E.w /\ ~Right(T.end, T.by, s, K(a), E.ray[a][m]) THEN "the eigenvectors are not those of the requested eigenvalues in ascending order"
  ELSE IF E.w /\ ~E.orth[a][m] THEN "an eigenvector was returned twice or not normalised"
  ELSE IF E.v /\ E.w /\ E.ray[a][m] # E.vals[a][m] THEN "an eigenvector is not in the place of its eigenvalue"
  ELSE ""
Consume ==
  /\ More /\ bad = ""
  /\ IF T.illegal \/ Refused(Sizes, T.k)
     THEN IF E.refused THEN Adv ELSE Reject("an impossible request was answered")
     ELSE IF E.refused THEN Reject("a legal request was refused: " \o E.msg)
     ELSE IF ~E.ok THEN Reject("the answer has another structure: " \o E.msg)
     ELSE LET ws == {Wrong(a, m) : a \in Leaves, m \in Samples} \ {""} IN
          IF ws # {} THEN Reject(CHOOSE w \in ws : TRUE) ELSE Adv
Finish == ~More /\ bad = "" /\ bad' = "end" /\ PrintT(<<"ACCEPT", tid>>) /\ UNCHANGED <<tid, l>>
TraceNext == Consume \/ Finish
TraceSpec == TraceInit /\ [][TraceNext]_tv
=============================================================================
