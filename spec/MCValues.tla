------------------------------ MODULE MCValues ------------------------------
(* Every history of writes, reads, casts, refused writes and calls on two objects of one architecture. *)
EXTENDS Values, Json
CONSTANTS Depth, X64
Slots == {1, 2}
Precs == IF X64 THEN {32, 64} ELSE {32}
VARIABLES obj, hist
mcv == <<obj, hist>>
None == [none |-> TRUE]
Init == /\ obj = [s \in Slots |-> IF s = 1 THEN Fresh("1") ELSE None]
        /\ hist = << [op |-> "new", s |-> 1, a |-> "1"] >>
Alive(s) == "par" \in DOMAIN obj[s]
Log(op, s, a, p) == hist' = Append(hist, [op |-> op, s |-> s, a |-> a, p |-> p])
Put(s, o) == obj' = [obj EXCEPT ![s] = o]
New(s) == \E k \in {"1", "2"} : ~Alive(s) /\ Put(s, Fresh(k)) /\ Log("new", s, k, 0)
Ops(s) ==
  /\ Alive(s)
  /\ \/ \E v \in {"a", "b"}, p \in Precs : Put(s, Write(obj[s], v, p)) /\ Log("write", s, v, p)
     \/ \E p \in Precs : Put(s, WriteState(obj[s], "a", p)) /\ Log("wstate", s, "a", p)
     \/ Put(s, obj[s]) /\ \E w \in {"back", "sback", "bad", "sbad"} : Log(w, s, "", 0)
     \/ \E p \in {32, 64} : Put(s, IF CanCast(X64, p) THEN Cast(obj[s], p) ELSE obj[s]) /\ Log("cast", s, "", p)
     \/ Put(s, Feed(obj[s])) /\ Log("feed", s, "", 0)
Next == Len(hist) < Depth /\ \E s \in Slots : New(s) \/ Ops(s)
(* after a write, what was there before makes no difference *)
Forgets == [][\A s \in Slots : LET h == hist'[Len(hist')] IN
                (h.op = "write" /\ h.s = s) => obj'[s].par = <<"value", h.a>> /\ obj'[s].prec = h.p /\ obj'[s].st = obj[s].st]_mcv
(* going up in precision and back loses nothing; going down and back up does *)
UpDown == \A s \in Slots : (Alive(s) /\ obj[s].prec = 32) => Cast(Cast(obj[s], 64), 32) = [Cast(obj[s], 32) EXCEPT !.st = Round(obj[s].st)]
Idempotent == \A s \in Slots : Alive(s) => \A p \in {32, 64} : Cast(Cast(obj[s], p), p) = Cast(obj[s], p)
KeepsNames == [][\A s \in Slots : LET h == hist'[Len(hist')] IN (h.op \in {"cast", "back", "sback", "bad", "sbad"}) => (Alive(s) => obj'[s].par = obj[s].par)]_mcv
Dump == Len(hist) = Depth => PrintT(<<"BEH", ToJson(hist)>>)
=============================================================================
