-------------------------- MODULE FraosCrashTrace --------------------------
(* Histories of a log that end in the death of the process or in a power failure, followed by what  *)
(* a fresh opening of the files that are left shows. The user-level view: acknowledged records stay, *)
(* and of the batch in progress some leading records may be there as well.                           *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
VARIABLES tr, i, log, pend, isopen, dead
Traces == ndJsonDeserialize(IOEnv.TRACES)
Ev == Traces[tr].ev
vars == <<log, pend, isopen, dead, tr, i>>

\* an operation that returned
Done(e) ==
  /\ e.op # "open" => ~dead /\ pend = << >>
  /\ CASE e.op = "open" -> /\ ~isopen /\ e.k = "ok" /\ isopen' = TRUE
                           /\ \E k \in 0..Len(pend) : e.n = Len(log) + k /\ log' = log \o SubSeq(pend, 1, k)
       [] e.op = "close" -> isopen /\ e.k = "ok" /\ isopen' = FALSE /\ UNCHANGED log
       [] e.op = "append" -> isopen /\ e.k = "ok" /\ e.n = Len(log) /\ log' = log \o e.recs /\ UNCHANGED isopen
  /\ pend' = << >> /\ dead' = FALSE

\* the process dies (or the power fails) during an operation; recs: the batch it was appending
Died(e) == /\ IF dead /\ pend # << >> THEN e.recs = << >> /\ UNCHANGED pend ELSE pend' = e.recs   \* died while opening again
           /\ dead' = TRUE /\ isopen' = FALSE /\ UNCHANGED log

\* the first opening afterwards decides which records are there
Show(e) ==
  /\ e.k = "ok" /\ e.n = Len(e.t)
  /\ \E k \in 0..Len(pend) : e.t = log \o SubSeq(pend, 1, k)
  /\ log' = e.t /\ pend' = << >> /\ dead' = FALSE
  /\ UNCHANGED isopen

\* an append after the reopening, outside of open/close bookkeeping
More(e) ==
  /\ ~dead /\ pend = << >>
  /\ e.k = "ok" /\ e.n = Len(log) /\ log' = log \o e.recs
  /\ UNCHANGED <<pend, isopen, dead>>

Step(e) ==
  CASE e.c = "done" -> Done(e)
    [] e.c = "died" -> Died(e)
    [] e.c = "show" -> Show(e)
    [] e.c = "more" -> More(e)

TInit == /\ tr \in 1..Len(Traces) /\ i = 1
         /\ log = << >> /\ pend = << >> /\ isopen = FALSE /\ dead = FALSE
TNext == /\ i <= Len(Ev) /\ Step(Ev[i]) /\ i' = i + 1 /\ tr' = tr
         /\ (i' > Len(Ev) => PrintT(<<"ACCEPT", tr>>))
         /\ (Len(Traces) = 1 => PrintT(<<"AT", i>>))
TSpec == TInit /\ [][TNext]_vars
TView == <<tr, i>>
=============================================================================
