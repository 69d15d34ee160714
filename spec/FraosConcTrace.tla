--------------------------- MODULE FraosConcTrace ---------------------------
(* Concurrent use of one log. The trace has the invocation and the return of every operation in the *)
(* order of a global clock. Appends are atomic: the number an append returns fixes where its batch   *)
(* lies in the final sequence F. A batch can be seen as soon as its append has been invoked (and all *)
(* batches before it as well), and must be seen once that append, or any read that saw a record of   *)
(* it, has returned. The length follows a batch, it may lag behind the records until the append has  *)
(* returned, but it never shrinks and only ever stands at the end of a batch.                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
VARIABLES tr, i,
          lo,    \* records that have to be visible
          cnt,   \* records the length has to count
          inv,   \* appends invoked so far: set of [seq, recs]
          pend   \* thread -> what it is doing: [e, lo, cnt]
vars == <<tr, i, lo, cnt, inv, pend>>
Traces == ndJsonDeserialize(IOEnv.TRACES)
Ev == Traces[tr].ev
Setup == Traces[tr].setup

Max(a, b) == IF a > b THEN a ELSE b
EndOf(a) == a.seq + Len(a.recs)

\* how far the batches invoked so far reach without a gap
RECURSIVE Reach(_, _)
Reach(n, as) == IF \E a \in as : a.seq = n THEN Reach(EndOf(CHOOSE a \in as : a.seq = n), as) ELSE n
Hi == Reach(Len(Setup), inv)

\* the record at position n, when it can be visible
At(n) == IF n < Len(Setup) THEN Setup[n + 1]
         ELSE LET a == CHOOSE a \in inv : a.seq <= n /\ n < EndOf(a) IN a.recs[n - a.seq + 1]
\* the end of the batch record n is part of
BatchEnd(n) == IF n < Len(Setup) THEN Len(Setup)
               ELSE EndOf(CHOOSE a \in inv : a.seq <= n /\ n < EndOf(a))
Ends == {0, Len(Setup)} \cup {EndOf(a) : a \in inv}

Inv(e) ==
  /\ e.t \notin DOMAIN pend
  /\ pend' = [x \in DOMAIN pend \cup {e.t} |-> IF x = e.t THEN [lo |-> lo, cnt |-> cnt] ELSE pend[x]]
  /\ IF e.op = "append"
     THEN \* it gets a block of numbers nobody else has, after everything that was there before it began
          /\ e.k = "ok" /\ e.seq >= lo
          /\ \A a \in inv : EndOf(a) <= e.seq \/ e.seq + Len(e.recs) <= a.seq
          /\ inv' = inv \cup {[seq |-> e.seq, recs |-> e.recs]}
     ELSE UNCHANGED inv
  /\ UNCHANGED <<lo, cnt>>

Saw(n) == lo' = Max(lo, BatchEnd(n))
ReadAt(n, e, p) ==
  IF e.k = "ok" THEN /\ n >= 0 /\ n < Hi /\ e.t = At(n) /\ Saw(n)
                ELSE /\ e.k = "none" /\ (n < 0 \/ n >= p.lo) /\ UNCHANGED lo

Ret(e) ==
  LET p == pend[e.t]
      r == [k |-> e.k, t |-> IF e.k = "ok" /\ Len(e.val) = 1 THEN e.val[1] ELSE [h |-> "?", l |-> 0]]
  IN
  /\ e.t \in DOMAIN pend
  /\ pend' = [x \in DOMAIN pend \ {e.t} |-> pend[x]]
  /\ UNCHANGED inv
  /\ CASE e.op = "append" -> /\ e.k = "ok" /\ e.n + e.len <= Hi
                             /\ lo' = Max(lo, e.n + e.len) /\ cnt' = Max(cnt, e.n + e.len)
       [] e.op \in {"get", "next"} -> ReadAt(e.i, r, p) /\ UNCHANGED cnt
       [] e.op = "last" -> /\ \/ e.k = "none" /\ p.cnt = 0 /\ UNCHANGED lo
                              \/ e.k = "ok" /\ \E n \in (Ends \ {0}) : n > 0 /\ n <= Hi /\ n >= p.cnt /\ r.t = At(n - 1) /\ lo' = Max(lo, n)
                           /\ UNCHANGED cnt
       [] e.op = "len" -> /\ e.k = "ok" /\ e.n \in Ends /\ p.cnt <= e.n /\ e.n <= Hi
                          /\ lo' = Max(lo, e.n) /\ cnt' = Max(cnt, e.n)
       [] e.op \in {"drop", "dropclone"} -> e.k = "ok" /\ UNCHANGED <<lo, cnt>>

\* at the end, and after a reopen, everything is there
Final(e) ==
  /\ e.k = "ok" /\ e.n = Hi /\ Len(e.t) = Hi /\ \A a \in inv : EndOf(a) <= Hi
  /\ \A n \in 1..Len(e.t) : e.t[n] = At(n - 1)
  /\ UNCHANGED <<lo, cnt, inv, pend>>

Step(e) == CASE e.c = "inv" -> Inv(e) [] e.c = "ret" -> Ret(e) [] e.c = "final" -> Final(e)

TInit == /\ tr \in 1..Len(Traces) /\ i = 1
         /\ Traces[tr].dead = 0
         /\ lo = Len(Traces[tr].setup) /\ cnt = Len(Traces[tr].setup)
         /\ inv = {} /\ pend = << >>
TNext == /\ i <= Len(Ev) /\ Step(Ev[i]) /\ i' = i + 1 /\ tr' = tr
         /\ (i' > Len(Ev) => PrintT(<<"ACCEPT", tr>>))
         /\ (Len(Traces) = 1 => PrintT(<<"AT", i>>))
TSpec == TInit /\ [][TNext]_vars
TView == <<tr, i, lo>>
=============================================================================
