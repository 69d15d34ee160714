-------------------------- MODULE LogMapConcTrace --------------------------
(* Concurrent inserts and lookups in one map. fin: the values in iteration order when all is quiet.    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
VARIABLES tr, i, done, begun, pend
vars == <<tr, i, done, begun, pend>>
Traces == ndJsonDeserialize(IOEnv.TRACES)
T == Traces[tr]
Ev == T.ev
Fin == T.fin
Pos(v) == IF \E p \in 1..Len(Fin) : Fin[p] = v THEN CHOOSE p \in 1..Len(Fin) : Fin[p] = v ELSE 0
Put(e) == [key |-> e.key, v |-> e.v]
Inv(e) ==
  /\ pend' = [x \in DOMAIN pend \cup {e.th} |-> IF x = e.th THEN done ELSE pend[x]]
  /\ begun' = IF e.op = "put" THEN begun \cup {Put(e)} ELSE begun
  /\ UNCHANGED done
Ret(e) ==
  /\ pend' = [x \in DOMAIN pend \ {e.th} |-> pend[x]]
  /\ UNCHANGED begun
  /\ IF e.op = "put"
     THEN /\ e.k = "ok"
          \* it comes after everything that had been inserted before it began
          /\ Pos(e.v) > 0 /\ \A d \in pend[e.th] : Pos(d.v) < Pos(e.v)
          /\ done' = done \cup {Put(e)}
     ELSE /\ LET before == {d \in pend[e.th] : d.key = e.key} IN
             \/ e.k = "none" /\ before = {}
             \/ /\ e.k = "ok"
                /\ [key |-> e.key, v |-> e.t[1]] \in begun
                /\ \A d \in before : Pos(d.v) <= Pos(e.t[1])
          /\ UNCHANGED done
LatestOf(key) == LET ps == {Pos(d.v) : d \in {x \in done : x.key = key}} IN IF ps = {} THEN 0 ELSE CHOOSE p \in ps : \A x \in ps : x <= p
Final(e) ==
  /\ e.k = "ok" /\ e.t = Fin
  /\ Len(Fin) = Cardinality(done) /\ {Fin[p] : p \in 1..Len(Fin)} = {d.v : d \in done}
  /\ \A j \in 1..Len(e.looks) : LET l == e.looks[j] p == LatestOf(l.key) IN IF p = 0 THEN l.k = "none" ELSE l.k = "ok" /\ l.t = <<Fin[p]>>
  /\ UNCHANGED <<done, begun, pend>>
Step(e) == CASE e.c = "inv" -> Inv(e) [] e.c = "ret" -> Ret(e) [] e.c = "final" -> Final(e)
TInit == /\ tr \in 1..Len(Traces) /\ i = 1 /\ T.dead = 0 /\ pend = << >>
         /\ done = {[key |-> T.setup[j].key, v |-> T.setup[j].v] : j \in 1..Len(T.setup)} /\ begun = done
TNext == /\ i <= Len(Ev) /\ Step(Ev[i]) /\ i' = i + 1 /\ tr' = tr
         /\ (i' > Len(Ev) => PrintT(<<"ACCEPT", tr>>))
         /\ (Len(Traces) = 1 => PrintT(<<"AT", i>>))
TSpec == TInit /\ [][TNext]_vars
TView == <<tr, i>>
=============================================================================
