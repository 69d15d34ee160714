---------------------------- MODULE LogMapTrace ----------------------------
EXTENDS LogMap, TLC, Json, IOUtils
VARIABLES tr, i
Traces == ndJsonDeserialize(IOEnv.TRACES)
Ev == Traces[tr].ev
Step(e) ==
  CASE e.op = "open" -> Open(e.h, e.dir, e.mode, e.idx, e.ro, e)
    [] e.op = "close" -> Close(e.h, e)
    [] e.op = "put" -> Put(e.h, e.key, e.v, e)
    [] e.op = "get" -> Get(e.h, e.key, e)
    [] e.op = "contains" -> Contains(e.h, e.key, e)
    [] e.op = "empty" -> IsEmpty(e.h, e)
    [] e.op = "iter" -> Iter(e.h, e)
    [] e.op = "iterfrom" -> IterFrom(e.h, e.key, e)
    [] e.op = "last" -> Last(e.h, e)
    [] e.op = "next" -> Next(e.h, e.key, e)
    [] e.op = "it" -> NewIter(e.h, e.it, e.key, e)
    [] e.op = "itdrop" -> DropIter(e.it, e)
    [] e.op = "itnext" -> IterNext(e.it, e)
TInit == Init /\ tr \in 1..Len(Traces) /\ i = 1
TNext == /\ i <= Len(Ev) /\ Step(Ev[i]) /\ i' = i + 1 /\ tr' = tr
         /\ (i' > Len(Ev) => PrintT(<<"ACCEPT", tr>>))
         /\ (Len(Traces) = 1 => PrintT(<<"AT", i>>))
TSpec == TInit /\ [][TNext]_<<vars, tr, i>>
TView == <<tr, i>>
=============================================================================
