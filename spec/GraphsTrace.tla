----------------------------- MODULE GraphsTrace ----------------------------
EXTENDS Graphs, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l, bad
tv == <<tid, l, bad>>
T == Traces[tid]
E == T.ev[l]
More == l <= Len(T.ev)
TraceInit == tid \in 1..Len(Traces) /\ l = 1 /\ bad = ""
Reject(why) == bad' = why /\ PrintT(<<"REJECT", tid, l, why>>) /\ UNCHANGED <<tid, l>>
Go == l' = l + 1 /\ UNCHANGED <<tid, bad>>
MP == {E.mods[i] : i \in 1..Len(E.mods)}
Mods0 == MP
(* refused <=> not well formed; otherwise Test *)
Guarded(ok, test, why) ==
  IF ~WellFormed(MP, E.conn) THEN (IF ok THEN Reject(E.e \o ": connections to modules that do not exist, from the output or to the input were not refused") ELSE Go)
  ELSE IF ~ok THEN Reject(E.e \o ": valid connections were refused: " \o E.msg)
  ELSE IF test THEN Go ELSE Reject(E.e \o ": " \o why)
PathsEv ==
  LET x == ExpandPaths(E.ps) IN
  IF ~E.ok THEN Reject("paths: refused: " \o E.msg)
  ELSE IF Len(E.got) # Len(x) THEN Reject("paths: paths lost or invented")
  ELSE IF SameConcrete([i \in 1..Len(x) |-> [f |-> <<Name(i)>>, t |-> <<"o">> \o x[i]]],
                       [i \in 1..Len(x) |-> [f |-> <<Name(i)>>, t |-> <<"o">> \o E.got[i]]]) THEN Go
  ELSE Reject("paths: not the explicit paths the shorthand denotes")
SetOf(s) == {s[i] : i \in 1..Len(s)}
Split(p) == [o |-> Owner(MP, p), i |-> Inner(MP, p)]
PartEv == Guarded(E.ok, Len(E.got) = Len(E.conn) /\ SetOf(E.got) = {[f |-> Split(E.conn[i].f), t |-> Split(E.conn[i].t)] : i \in 1..Len(E.conn)},
                  "connections were lost, invented or split at the wrong place")
OuterEv == Guarded(E.ok, Len(E.got) = Cardinality(OuterEdges(MP, E.conn)) /\ {<<E.got[i].f, E.got[i].t>> : i \in 1..Len(E.got)} = OuterEdges(MP, E.conn),
                   "not exactly the module-to-module edges")
ConcEv == Guarded(E.ok, SameConcrete(Concrete(MP, E.conn), E.got), "not exactly the explicit connections the shorthand denotes")
(* a tree built of text paths *)
PlaceSet(o) == LET cc == Concrete(MP, E.conn) IN
  {<<Drop(cc[i].t, Len(o)), Leaf(cc[i].f)>> : i \in {j \in 1..Len(cc) : Owner(MP, cc[j].t) = o}}
PlaceEv ==
  Guarded(E.ok,
    /\ SameConcrete(Concrete(MP, E.conn), E.got)
    /\ \/ HasFresh(Concrete(MP, E.conn)) \/ E.mixed
       \/ /\ \A i \in 1..Len(E.ins) : EqV(E.ins[i].v, Assemble(PlaceSet(E.ins[i].m)))
          /\ PlaceSet(OUT) = {} \/ EqV(E.rem, Assemble(PlaceSet(OUT))),
    "sources were not placed at exactly the places the connections name")
ResolveEv ==
  LET G == {<<<<E.E[i][1]>>, <<E.E[i][2]>>>> : i \in 1..Len(E.E)} IN
  IF ~Resolvable(G) THEN (IF E.ok THEN Reject("resolve: a graph with a cycle or without complete inputs was not refused") ELSE Go)
  ELSE IF ~E.ok THEN (IF DeadCycle(G) THEN Go ELSE Reject("resolve: a valid graph was refused: " \o E.msg))
  ELSE IF ValidOrder(G, [i \in 1..Len(E.ord) |-> <<E.ord[i]>>]) THEN Go
  ELSE Reject("resolve: the order is not exactly the modules between input and output, each after its sources")
ModelEv ==
  LET g == E.g
      mp == ModPaths(g)
      fine == WellFormed(mp, g.conn) /\ Resolvable(Edges(g))
      want(i) == EvalG(g, E.runs[i].in)
  IN IF ~fine THEN (IF E.ok THEN Reject("model: an impossible graph was not refused") ELSE Go)
     ELSE IF Bad(want(1)) THEN (IF E.ok THEN Reject("model: a connection from an output part that does not exist was not refused") ELSE Go)
     ELSE IF ~E.ok THEN (IF DeadCycle(Edges(g)) THEN Go ELSE Reject("model: a valid graph was refused: " \o E.msg))
     ELSE IF ~ValidOrder(Edges(g), E.ord) THEN Reject("model: the execution order is not the modules between input and output, each after its sources")
     ELSE IF \A i \in 1..Len(E.runs) : EqV(E.runs[i].out, want(i)) THEN Go
     ELSE Reject("model: the output is not what the connections route there")
Consume ==
  /\ More /\ bad = ""
  /\ CASE E.e = "paths" -> PathsEv [] E.e = "part" -> PartEv [] E.e = "outer" -> OuterEv [] E.e = "conc" -> ConcEv
       [] E.e = "place" -> PlaceEv [] E.e = "resolve" -> ResolveEv [] E.e = "model" -> ModelEv
       [] OTHER -> Reject("operation failed: " \o E.msg)
Finish == ~More /\ bad = "" /\ bad' = "end" /\ PrintT(<<"ACCEPT", tid>>) /\ UNCHANGED <<tid, l>>
TraceNext == Consume \/ Finish
TraceSpec == TraceInit /\ [][TraceNext]_tv
=============================================================================
