------------------------------ MODULE FraosLog ------------------------------
(* What a user of the append-only log sees: databases, handles on them, iterators. The state is   *)
(* the sequence of records of every database; every operation is an action whose last argument is *)
(* the answer the operation gave: k (ok, none, err, panic), t (records read), n (a number).       *)
(* Numbers the checker cannot hold are written -1 ("huge"); they are larger than any length.      *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

VARIABLES logs,     \* database -> sequence of records (a record is [h |-> hash, l |-> length])
          handles,  \* handle -> [db, mode, seen]; seen: number of records when opened (read-only)
          iters,    \* iterator -> [db, pos, ro, seen]
          prints,   \* database -> fingerprint of its files, "" when they may have changed
          left,     \* databases whose last writer ended without closing: files may be longer than the data
          waste     \* databases an append to which failed half-way: its bytes may stay, unreachable

vars == <<logs, handles, iters, prints, left, waste>>

Init == /\ logs = << >> /\ handles = << >> /\ iters = << >> /\ prints = << >> /\ left = {} /\ waste = {}

Upd(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Rem(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]

Log(db) == IF db \in DOMAIN logs THEN logs[db] ELSE << >>
TotalLen(s) == FoldLeft(LAMBDA a, x : a + x.l, 0, s)
Touch(db) == prints' = Upd(prints, db, "")

(* A writable handle reads the whole log. A read-only handle must show what was there when it was *)
(* opened; whether it shows records appended later is left open.                                  *)
MustSee(h) == IF handles[h].mode = "ro" THEN handles[h].seen ELSE Len(Log(handles[h].db))

Writers(db) == {h \in DOMAIN handles : handles[h].db = db /\ handles[h].mode # "ro"}

Open(h, db, mode, r) ==
  /\ h \notin DOMAIN handles
  /\ r.k = "ok" /\ r.n = Len(Log(db))
  /\ handles' = Upd(handles, h, [db |-> db, mode |-> mode, seen |-> Len(Log(db))])
  /\ logs' = Upd(logs, db, Log(db))
  /\ IF mode = "ro" THEN UNCHANGED prints ELSE Touch(db)
  /\ UNCHANGED <<iters, left, waste>>

Clone(h, from, r) ==
  /\ h \notin DOMAIN handles /\ from \in DOMAIN handles
  /\ r.k = "ok"
  /\ handles' = Upd(handles, h, handles[from])
  /\ UNCHANGED <<logs, iters, prints, left, waste>>

Drop(h, r) ==
  /\ h \in DOMAIN handles
  /\ r.k = "ok"
  /\ handles' = Rem(handles, h)
  /\ IF handles[h].mode = "ro" THEN UNCHANGED prints ELSE Touch(handles[h].db)
  \* iterators may outlive the last writable handle: what is appended after a new opening they need not see
  /\ LET db == handles[h].db IN
     iters' = IF Writers(db) = {h}
              THEN [it \in DOMAIN iters |-> IF iters[it].db = db /\ ~iters[it].ro
                                            THEN [iters[it] EXCEPT !.ro = TRUE, !.seen = Len(Log(db))] ELSE iters[it]]
              ELSE iters
  /\ left' = IF Writers(handles[h].db) = {h} THEN left \ {handles[h].db} ELSE left
  /\ UNCHANGED <<logs, waste>>

(* The process that has the only handle is gone without having closed the log. *)
Lose(h, r) ==
  /\ h \in DOMAIN handles /\ {g \in DOMAIN handles : handles[g].db = handles[h].db} = {h}
  /\ ~\E it \in DOMAIN iters : iters[it].db = handles[h].db
  /\ handles' = Rem(handles, h)
  /\ left' = left \cup {handles[h].db}
  /\ Touch(handles[h].db)
  /\ UNCHANGED <<logs, iters, waste>>

(* fault: a system call was made to fail during this append *)
AppendTo(h, recs, fault, r) ==
  LET db == handles[h].db
      bad == \E i \in 1..Len(recs) : recs[i].l = 0
  IN /\ h \in DOMAIN handles /\ handles[h].mode # "ro"
     /\ Touch(db)
     /\ CASE recs = << >> -> r.k = "none" /\ UNCHANGED logs
          [] recs # << >> /\ bad -> r.k = "err" /\ UNCHANGED logs
          [] OTHER -> \/ r.k = "ok" /\ r.n = Len(logs[db]) /\ logs' = [logs EXCEPT ![db] = @ \o recs]
                      \/ fault /\ r.k = "err" /\ UNCHANGED logs
     /\ waste' = IF fault THEN waste \cup {db} ELSE waste
     /\ UNCHANGED <<handles, iters, left>>

\* the answer to reading record number i (from 0) of a log of which must records have to be seen
ReadOk(log, must, i, r) ==
  \/ i >= 0 /\ i < Len(log) /\ r.k = "ok" /\ r.t = <<log[i + 1]>>
  \/ (i < 0 \/ i >= must) /\ r.k = "none"

Get(h, i, r) ==
  /\ h \in DOMAIN handles
  /\ ReadOk(Log(handles[h].db), MustSee(h), i, r)
  /\ UNCHANGED vars

LastOf(h, r) ==
  /\ h \in DOMAIN handles
  /\ LET log == Log(handles[h].db) must == MustSee(h) IN
     \/ \E n \in (IF must = 0 THEN 1 ELSE must)..Len(log) : r.k = "ok" /\ r.t = <<log[n]>>
     \/ must = 0 /\ r.k = "none"
  /\ UNCHANGED vars

Length(h, r) ==
  /\ h \in DOMAIN handles
  /\ r.k = "ok" /\ r.n >= MustSee(h) /\ r.n <= Len(Log(handles[h].db)) /\ r.empty = (r.n = 0)
  /\ UNCHANGED vars

\* everything from record i on
All(h, i, r) ==
  /\ h \in DOMAIN handles
  /\ LET log == Log(handles[h].db) must == MustSee(h) IN
     /\ r.k = "ok"
     /\ \E n \in must..Len(log) : r.t = IF i < 0 \/ i >= n THEN << >> ELSE SubSeq(log, i + 1, n)
  /\ UNCHANGED vars

NewIter(h, it, i, r) ==
  /\ h \in DOMAIN handles /\ it \notin DOMAIN iters
  /\ r.k = "ok"
  /\ iters' = Upd(iters, it, [db |-> handles[h].db, pos |-> i, ro |-> handles[h].mode = "ro", seen |-> handles[h].seen])
  /\ UNCHANGED <<logs, handles, prints, left, waste>>

NextOf(it, r) ==
  /\ it \in DOMAIN iters
  /\ LET log == Log(iters[it].db)
         must == IF iters[it].ro THEN iters[it].seen ELSE Len(log)
     IN ReadOk(log, must, iters[it].pos, r)
  /\ iters' = IF r.k = "ok" THEN [iters EXCEPT ![it].pos = @ + 1] ELSE iters
  /\ UNCHANGED <<logs, handles, prints, left, waste>>

DropIter(it, r) ==
  /\ it \in DOMAIN iters
  /\ iters' = Rem(iters, it)
  /\ Touch(iters[it].db)
  /\ UNCHANGED <<logs, handles, left, waste>>

(* Looking at the files of a database. Between two looks with only read-only activity they are    *)
(* the same; when nobody is writing they hold the records and nothing more.                       *)
Files(db, r) ==
  /\ r.k = "ok"
  /\ (db \in DOMAIN prints /\ prints[db] # "") => r.print = prints[db]
  /\ (Writers(db) = {} /\ db \notin left /\ ~\E it \in DOMAIN iters : iters[it].db = db)
        => (r.data = TotalLen(Log(db)) \/ (db \in waste /\ r.data > TotalLen(Log(db)))) /\ r.index = 16 * Len(Log(db))
  /\ prints' = Upd(prints, db, r.print)
  /\ UNCHANGED <<logs, handles, iters, left, waste>>

----------------------------------------------------------------------------
TypeOK == /\ \A db \in DOMAIN logs : \A i \in 1..Len(logs[db]) : logs[db][i].l > 0
          /\ \A h \in DOMAIN handles : handles[h].seen <= Len(logs[handles[h].db])
(* Records never change or disappear. *)
AppendOnly == [][\A db \in DOMAIN logs : db \in DOMAIN logs' /\ SubSeq(logs'[db], 1, Len(logs[db])) = logs[db]]_vars
=============================================================================
