------------------------------- MODULE LogMap -------------------------------
(* The indexed log map as its user sees it: a sequence of (key, value) pairs per database. The last  *)
(* argument of every action is the answer: k (ok, none, err), t (values), n (0/1 for a truth value). *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES maps,   \* database -> sequence of [key, v]
          hs,     \* handle -> [db, idx, ro, seen]
          its     \* iterator -> [h, pos]: pos is what it yields next (from 1)
vars == <<maps, hs, its>>
Init == maps = << >> /\ hs = << >> /\ its = << >>

With(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Less(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
Log(db) == IF db \in DOMAIN maps THEN maps[db] ELSE << >>
Vals(s) == [j \in 1..Len(s) |-> s[j].v]

\* position of the latest value of a key, 0 when there is none
Latest(s, key) == LET ps == {j \in 1..Len(s) : s[j].key = key}
                  IN IF ps = {} THEN 0 ELSE CHOOSE j \in ps : \A x \in ps : x <= j

Open(h, db, mode, idx, ro, r) ==
  /\ h \notin DOMAIN hs /\ r.k = "ok"
  /\ hs' = With(hs, h, [db |-> db, idx |-> idx, ro |-> ro /\ mode # "mem", seen |-> Len(Log(db))])
  /\ maps' = With(maps, db, Log(db))
  /\ UNCHANGED its
Close(h, r) == /\ h \in DOMAIN hs /\ r.k = "ok" /\ hs' = Less(hs, h) /\ UNCHANGED <<maps, its>>

Put(h, key, v, r) ==
  /\ h \in DOMAIN hs
  /\ IF hs[h].idx /\ ~hs[h].ro
     THEN r.k = "ok" /\ maps' = [maps EXCEPT ![hs[h].db] = Append(@, [key |-> key, v |-> v])]
     ELSE r.k = "err" /\ UNCHANGED maps
  /\ UNCHANGED <<hs, its>>

\* a read-only handle has to show what was there when it was opened
Some(h) == LET s == Log(hs[h].db) IN IF hs[h].ro THEN {SubSeq(s, 1, n) : n \in hs[h].seen..Len(s)} ELSE {s}

Answer(r, s, p) == IF p >= 1 /\ p <= Len(s) THEN r.k = "ok" /\ r.t = <<s[p].v>> ELSE r.k = "none"
NeedsIndex(h, r, ok) == IF hs[h].idx THEN ok ELSE r.k = "err"

Get(h, key, r) == /\ NeedsIndex(h, r, \E s \in Some(h) : Answer(r, s, Latest(s, key))) /\ UNCHANGED vars
Contains(h, key, r) == /\ NeedsIndex(h, r, \E s \in Some(h) : r.k = "ok" /\ (r.n = 1) = (Latest(s, key) # 0)) /\ UNCHANGED vars
IsEmpty(h, r) == /\ NeedsIndex(h, r, \E s \in Some(h) : r.k = "ok" /\ (r.n = 1) = (s = << >>)) /\ UNCHANGED vars
Iter(h, r) == /\ \E s \in Some(h) : r.k = "ok" /\ r.t = Vals(s)
              /\ UNCHANGED vars
IterFrom(h, key, r) ==
  /\ NeedsIndex(h, r, \E s \in Some(h) : LET p == Latest(s, key) IN
                        IF p = 0 THEN r.k = "none" ELSE r.k = "ok" /\ r.t = Vals(SubSeq(s, p, Len(s))))
  /\ UNCHANGED vars
Last(h, r) == /\ \E s \in Some(h) : Answer(r, s, Len(s)) /\ UNCHANGED vars
\* the element after the latest value of a key; without a key, the first one
Next(h, key, r) ==
  /\ \E s \in Some(h) :
       IF key = "-" THEN Answer(r, s, 1)
       ELSE NeedsIndex(h, r, IF Latest(s, key) = 0 THEN r.k = "none" ELSE Answer(r, s, Latest(s, key) + 1))
  /\ UNCHANGED vars
NewIter(h, it, key, r) ==
  /\ LET s == Log(hs[h].db) p == IF key = "-" THEN 1 ELSE Latest(s, key) IN
     IF key # "-" /\ ~hs[h].idx THEN r.k = "err" /\ UNCHANGED its
     ELSE IF p = 0 THEN r.k = "none" /\ UNCHANGED its
     ELSE r.k = "ok" /\ its' = With(its, it, [db |-> hs[h].db, pos |-> p])
  /\ UNCHANGED <<maps, hs>>
IterNext(it, r) ==
  /\ it \in DOMAIN its
  /\ Answer(r, Log(its[it].db), its[it].pos)
  /\ its' = IF r.k = "ok" THEN [its EXCEPT ![it].pos = @ + 1] ELSE its
  /\ UNCHANGED <<maps, hs>>
\* nothing depends on an iterator that is gone (it may have outlived its handle, or never existed)
DropIter(it, r) == r.k = "ok" /\ its' = Less(its, it) /\ UNCHANGED <<maps, hs>>

----------------------------------------------------------------------------
Grows == [][\A db \in DOMAIN maps : db \in DOMAIN maps' /\ SubSeq(maps'[db], 1, Len(maps[db])) = maps[db]]_vars
=============================================================================
