--------------------------- MODULE FraosLogTrace ---------------------------
(* Decides which recorded histories of the real log are behaviours of FraosLog. *)
EXTENDS FraosLog, TLC, Json, IOUtils
VARIABLES tr, i
Traces == ndJsonDeserialize(IOEnv.TRACES)
Ev == Traces[tr].ev

Step(e) ==
  CASE e.op = "open" -> Open(e.h, e.dir, e.mode, e)
    [] e.op = "clone" -> Clone(e.h, e.from, e)
    [] e.op = "drop" -> Drop(e.h, e)
    [] e.op = "lose" -> Lose(e.h, e)
    [] e.op = "append" -> AppendTo(e.h, e.recs, "fired" \in DOMAIN e /\ e.fired, e)
    [] e.op = "get" -> Get(e.h, e.i, e)
    [] e.op = "last" -> LastOf(e.h, e)
    [] e.op = "len" -> Length(e.h, e)
    [] e.op = "all" -> All(e.h, e.i, e)
    [] e.op = "iter" -> NewIter(e.h, e.it, e.i, e)
    [] e.op = "next" -> NextOf(e.it, e)
    [] e.op = "dropiter" -> DropIter(e.it, e)
    [] e.op = "files" -> Files(e.dir, e)

TInit == Init /\ tr \in 1..Len(Traces) /\ i = 1
TNext == /\ i <= Len(Ev) /\ Step(Ev[i]) /\ i' = i + 1 /\ tr' = tr
         /\ (i' > Len(Ev) => PrintT(<<"ACCEPT", tr>>))
         /\ (Len(Traces) = 1 => PrintT(<<"AT", i>>))
TSpec == TInit /\ [][TNext]_<<vars, tr, i>>
\* the abstract state is a function of the position: only that is fingerprinted
TView == <<tr, i>>
=============================================================================
