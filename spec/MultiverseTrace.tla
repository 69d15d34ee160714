-------------------------- MODULE MultiverseTrace --------------------------
EXTENDS Multiverse, TLC, Json, IOUtils
VARIABLES tr, i
Traces == ndJsonDeserialize(IOEnv.TRACES)
T == Traces[tr]
Ev == T.ev
Ask == {T.ask[k] : k \in 1..Len(T.ask)}
Step(e) ==
  CASE e.op = "open" -> Open(e.m, <<e.db, e.dom>>, e.from, e.k)
    [] e.op = "drop" -> Drop(e.m, e.k)
    [] e.op = "insert" -> Insert(e.m, e.b, e.k)
    [] e.op = "remove" -> Remove(e.m, e.b, e.k, IF "v" \in DOMAIN e THEN e.v ELSE 0)
    [] e.op = "gc" -> e.k = "ok" /\ Gc(e.m, e.d, e.g, e)
    [] e.op = "look" -> e.k = "ok" /\ Look(e.m, e, Ask)
    [] e.op = "clear" -> Clear(e.m, e.k)
    [] e.op = "destroy" -> Destroy(e.m, e.k)
    [] e.op \in {"release", "closedb"} -> e.k = "ok" /\ UNCHANGED <<ms, stores>>
TInit == Init /\ tr \in 1..Len(Traces) /\ tree = Traces[tr].blocks /\ i = 1
TNext == /\ i <= Len(Ev) /\ Step(Ev[i]) /\ tree' = tree /\ i' = i + 1 /\ tr' = tr
         /\ (i' > Len(Ev) => PrintT(<<"ACCEPT", tr>>))
         /\ (Len(Traces) = 1 => PrintT(<<"AT", i>>))
TSpec == TInit /\ [][TNext]_<<tr, i, tree, ms, stores>>
\* the tree is a function of the trace
TView == <<tr, i, ms, stores>>
=============================================================================
