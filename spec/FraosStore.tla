----------------------------- MODULE FraosStore -----------------------------
(* How the append-only log keeps its records: a data file and an index file (offset and length of  *)
(* every record), both grown in chunks that are memory mapped. An append maps, writes and flushes  *)
(* the data, publishes its size, then does the same with the index. A chunk that is full becomes    *)
(* inactive; inactive chunks are merged when there are too many; the files are cut to size when the *)
(* last handle is dropped. The process may die at any step, the machine may lose power at any step, *)
(* and extending, mapping or flushing may fail at any step.                                         *)
(* Units: one unit of the data file stands for a stretch of bytes, one cell of the index file for a *)
(* machine word. Record number n of the history is written as the value n in each of its units.     *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS DC, IC,        \* smallest chunk of the data file (units) and of the index file (cells)
          MaxMaps,       \* inactive chunks that are kept before merging them
          Batches,       \* the batches to append: sequences of record lengths
          MaxApp, MaxFault, MaxCrash, MaxHandles,
          InMem,         \* a log in memory: chunks of exactly the size of the batch, no files
          Variant        \* "ok", or the name of a design that must turn out to be wrong

VARIABLES f,       \* the files as the running system sees them: f.d, f.i
          s,       \* the files as they would be after a power failure
          m,       \* the maps: m.d, m.i, each [inact, act, size]
          up,      \* number of handles (database clones and iterators); 0: closed or dead
          step,    \* 0: no append in progress, otherwise the step it is at
          b,       \* the batch being appended: a sequence of [id, l]
          base,    \* where its data goes
          w,       \* how many records (data) or cells (index) of the current write are done
          acked,   \* the records of all acknowledged appends
          ids,     \* number of records ever made
          cnt,     \* [app, fault, crash]: what was used of the budget
          exact,   \* no crash and no failed append so far: the files are exactly as long as needed
          bus      \* a mapped page behind the end of the file was touched

vars == <<f, s, m, up, step, b, base, w, acked, ids, cnt, exact, bus>>

Nothing == [inact |-> << >>, act |-> << >>, size |-> 0]     \* act: << >> or <<chunk>>
Zeros(n) == [k \in 1..n |-> 0]
Resize(x, n) == IF n <= Len(x) THEN SubSeq(x, 1, n) ELSE x \o Zeros(n - Len(x))
Fill(x, from, y) == [k \in 1..Len(x) |-> IF k > from /\ k <= from + Len(y) THEN y[k - from] ELSE x[k]]
Max(x, y) == IF x > y THEN x ELSE y
Min(x, y) == IF x < y THEN x ELSE y

End(c) == c.start + (IF c.bounds = << >> THEN 0 ELSE c.bounds[Len(c.bounds)])
InactLen(mm) == IF mm.inact = << >> THEN 0 ELSE End(mm.inact[Len(mm.inact)])
Total(mm) == IF mm.act = << >> THEN InactLen(mm) ELSE End(mm.act[1])
LenOf(rs) == LET RECURSIVE g(_) g(k) == IF k = 0 THEN 0 ELSE rs[k].l + g(k - 1) IN g(Len(rs))

----------------------------------------------------------------------------
(* Reading                                                                                          *)

\* the mapped stretch an address is looked up in: from the address to the next bound
InChunk(c, a) ==
  LET rel == a - c.start
      ks == {k \in 1..Len(c.bounds) : c.bounds[k] > rel}
  IN IF a < c.start \/ ks = {} THEN 0
     ELSE c.bounds[CHOOSE k \in ks : \A j \in ks : k <= j] - rel

Stretch(mm, a) ==
  IF a < InactLen(mm)
  THEN LET cs == {k \in 1..Len(mm.inact) : mm.inact[k].start <= a /\ a < End(mm.inact[k])}
       IN IF cs = {} THEN 0 ELSE InChunk(mm.inact[CHOOSE k \in cs : TRUE], a)
  ELSE IF mm.act = << >> THEN 0 ELSE InChunk(mm.act[1], a)

\* record number k (from 0): [k |-> "none"], "err", or the bytes
Get(ff, mm, k) ==
  IF Stretch(mm.i, 2 * k) = 0 THEN [k |-> "none", v |-> << >>]
  ELSE IF Stretch(mm.i, 2 * k) < 2 \/ Len(ff.i) < 2 * k + 2 THEN [k |-> "err", v |-> << >>]
  ELSE LET o == ff.i[2 * k + 1] l == ff.i[2 * k + 2] IN
       IF Stretch(mm.d, o) = 0 THEN [k |-> "none", v |-> << >>]
       ELSE IF Stretch(mm.d, o) < l \/ Len(ff.d) < o + l THEN [k |-> "err", v |-> << >>]
       ELSE [k |-> "ok", v |-> SubSeq(ff.d, o + 1, o + l)]

Bytes(r) == [k \in 1..r.l |-> r.id]
Shows(ff, mm, rs) ==
  /\ \A k \in 1..Len(rs) : Get(ff, mm, k - 1) = [k |-> "ok", v |-> Bytes(rs[k])]
  /\ \A k \in Len(rs)..(Len(rs) + 2) : Get(ff, mm, k).k = "none"

----------------------------------------------------------------------------
(* Opening: the index of a log that was not closed properly ends with zeros                         *)

LenAt(x, k) == x[2 * k + 2]
RECURSIVE Bisect(_, _, _)
Bisect(x, lo, hi) ==
  IF lo >= Len(x) \div 2 - 1 THEN -1
  ELSE IF LenAt(x, lo + 1) = 0 THEN lo + 1
  ELSE LET mid == (lo + hi) \div 2
       IN IF LenAt(x, mid) = 0 THEN Bisect(x, lo, mid)
          ELSE IF mid = lo /\ hi = lo + 1 THEN -1 ELSE Bisect(x, mid, hi)
ActualEnd(x) ==
  LET n == Len(x) \div 2 IN
  IF n = 0 THEN 0
  ELSE IF LenAt(x, n - 1) # 0 THEN n
  ELSE IF Variant = "no_find_end" THEN n
  ELSE IF LenAt(x, 0) = 0 THEN 0
  ELSE Bisect(x, 0, n)

One(n) == IF n = 0 THEN Nothing ELSE [inact |-> <<[start |-> 0, cap |-> n, bounds |-> <<n>>]>>, act |-> << >>, size |-> n]
Opened(ff) ==
  LET n == ActualEnd(ff.i)
      have == IF n = 0 THEN 0 ELSE ff.i[2 * n - 1] + ff.i[2 * n]
  IN [ok |-> n >= 0 /\ have <= Len(ff.d), m |-> [d |-> One(have), i |-> One(IF n < 0 THEN 0 ELSE 2 * n)]]

\* what is found when these files are opened: the acknowledged records, then some of the batch
Recovers(ff) ==
  LET o == Opened(ff) IN
  /\ o.ok
  /\ \E k \in 0..Len(b) : Shows(ff, o.m, acked \o SubSeq(b, 1, k))

----------------------------------------------------------------------------
(* Appending                                                                                        *)

Steps ==
  LET d == <<"dmap", "dwrite", "dflush", "dmerge", "dpub">>
      i == <<"imap", "iwrite", "iflush", "imerge", "ipub">>
  IN CASE Variant = "no_dflush" -> <<"dmap", "dwrite", "dmerge", "dpub">> \o i \o <<"ack">>
       [] Variant = "no_iflush" -> d \o <<"imap", "iwrite", "imerge", "ipub", "ack">>
       [] Variant = "index_first" -> i \o d \o <<"ack">>
       [] Variant = "pub_early" -> d \o <<"ipub", "imap", "iwrite", "iflush", "imerge", "ack">>
       [] Variant = "flush_early" -> <<"dmap", "dflush", "dwrite", "dmerge", "dpub">> \o i \o <<"ack">>
       [] OTHER -> d \o i \o <<"ack">>

Cur == IF step = 0 THEN "idle" ELSE Steps[step]
X == IF Cur \in {"dmap", "dwrite", "dflush", "dmerge", "dpub"} THEN "d" ELSE "i"
Ext(x) == IF x = "d" THEN LenOf(b) ELSE 2 * Len(b)
Chunk(x) == IF InMem THEN 0 ELSE IF x = "d" THEN DC ELSE IC

\* the write lock of the index is held
Locked == Cur \in {"iwrite", "iflush", "imerge"} \/ Cur \in {"dwrite", "dflush", "dmerge"}

DataCells == LET RECURSIVE g(_) g(k) == IF k = 0 THEN << >> ELSE g(k - 1) \o Bytes(b[k]) IN g(Len(b))
IndexCells == LET RECURSIVE g(_, _) g(k, o) == IF k > Len(b) THEN << >> ELSE <<o, b[k].l>> \o g(k + 1, o + b[k].l) IN g(1, base)
Cells(x) == IF x = "d" THEN DataCells ELSE IndexCells

Begin(batch) ==
  /\ up > 0 /\ step = 0 /\ cnt.app < MaxApp
  /\ b' = [k \in 1..Len(batch) |-> [id |-> ids + k, l |-> batch[k]]]
  /\ ids' = ids + Len(batch)
  /\ base' = m.d.size
  /\ step' = 1 /\ w' = 0
  /\ cnt' = [cnt EXCEPT !.app = @ + 1]
  /\ UNCHANGED <<f, s, m, up, acked, exact, bus>>

Advance == step' = step + 1 /\ w' = 0

Map ==
  /\ up > 0 /\ Cur \in {"dmap", "imap"}
  /\ LET x == X
         mm == m[x]
         ext == Ext(x)
     IN IF mm.act # << >> /\ End(mm.act[1]) - mm.act[1].start + ext < mm.act[1].cap
        THEN /\ m' = [m EXCEPT ![x].act[1].bounds = Append(@, End(mm.act[1]) - mm.act[1].start + ext)]
             /\ UNCHANGED f
        ELSE LET off == Total(mm)
                 cap == Max(ext, Chunk(x))
             IN /\ f' = [f EXCEPT ![x] = Resize(@, off + cap)]
                /\ m' = [m EXCEPT ![x].act = <<[start |-> off, cap |-> cap, bounds |-> <<ext>>]>>,
                                  ![x].inact = IF mm.act = << >> \/ mm.act[1].bounds = << >> THEN @ ELSE Append(@, mm.act[1])]
  /\ Advance
  /\ UNCHANGED <<s, up, b, base, acked, ids, cnt, exact, bus>>

Write ==
  /\ up > 0 /\ Cur \in {"dwrite", "iwrite"}
  /\ LET x == X
         c == m[x].act[1]
         from == End(c) - Ext(x)
         all == Cells(x)
     IN /\ bus' = (bus \/ from + w + 1 > Len(f[x]))
        /\ f' = [f EXCEPT ![x] = Fill(@, from + w, <<all[w + 1]>>)]
        /\ IF w + 1 = Len(all) THEN Advance ELSE w' = w + 1 /\ UNCHANGED step
  /\ UNCHANGED <<s, m, up, b, base, acked, ids, cnt, exact>>

Synced(x) ==
  LET c == m[x].act[1]
      t == Resize(s[x], Len(f[x]))
  IN [k \in 1..Len(t) |-> IF k > c.start /\ k <= c.start + c.cap THEN f[x][k] ELSE t[k]]

Flush ==
  /\ up > 0 /\ Cur \in {"dflush", "iflush"}
  /\ s' = IF InMem THEN s ELSE [s EXCEPT ![X] = Synced(X)]
  /\ Advance
  /\ UNCHANGED <<f, m, up, b, base, acked, ids, cnt, exact, bus>>

Merge(ok) ==
  /\ up > 0 /\ Cur \in {"dmerge", "imerge"}
  /\ LET x == X mm == m[x] IN
     IF Len(mm.inact) > MaxMaps /\ ~InMem
     THEN IF ok THEN m' = [m EXCEPT ![x].inact = <<[start |-> 0, cap |-> InactLen(mm), bounds |-> <<InactLen(mm)>>]>>] /\ cnt' = cnt
                ELSE cnt.fault < MaxFault /\ cnt' = [cnt EXCEPT !.fault = @ + 1] /\ UNCHANGED m
     ELSE ok /\ UNCHANGED <<m, cnt>>
  /\ IF ~ok /\ Variant = "merge_fails" THEN step' = 0 /\ w' = 0 /\ b' = << >> ELSE Advance /\ UNCHANGED b
  /\ UNCHANGED <<f, s, up, base, acked, ids, exact, bus>>

Publish ==
  /\ up > 0 /\ Cur \in {"dpub", "ipub"}
  /\ m' = [m EXCEPT ![X].size = @ + Ext(X)]
  /\ Advance
  /\ UNCHANGED <<f, s, up, b, base, acked, ids, cnt, exact, bus>>

Ack ==
  /\ up > 0 /\ Cur = "ack"
  /\ acked' = acked \o b
  /\ b' = << >> /\ step' = 0 /\ w' = 0
  /\ UNCHANGED <<f, s, m, up, base, ids, cnt, exact, bus>>

Abort == step' = 0 /\ w' = 0 /\ b' = << >> /\ exact' = FALSE /\ cnt' = [cnt EXCEPT !.fault = @ + 1]

\* extending the file fails (nothing happened) or mapping fails (the file may be longer)
MapFails ==
  /\ up > 0 /\ Cur \in {"dmap", "imap"} /\ cnt.fault < MaxFault
  /\ LET x == X mm == m[x] IN
     /\ ~(mm.act # << >> /\ End(mm.act[1]) - mm.act[1].start + Ext(x) < mm.act[1].cap)
     /\ f' \in {f, IF InMem THEN f ELSE [f EXCEPT ![x] = Resize(@, Total(mm) + Max(Ext(x), Chunk(x)))]}
  /\ Abort
  /\ UNCHANGED <<s, m, up, base, acked, ids, bus>>

\* flushing fails: what was written is taken back
FlushFails ==
  /\ up > 0 /\ Cur \in {"dflush", "iflush"} /\ cnt.fault < MaxFault
  /\ LET x == X c == m[x].act[1] from == End(c) - Ext(x)
         rest == SubSeq(c.bounds, 1, Len(c.bounds) - 1) IN
     IF Variant = "no_rollback" THEN UNCHANGED <<f, m>>
     ELSE /\ f' = [f EXCEPT ![x] = Fill(@, from, Zeros(Ext(x)))]
          /\ m' = [m EXCEPT ![x].act = IF rest = << >> THEN << >> ELSE <<[c EXCEPT !.bounds = rest]>>]
  /\ Abort
  /\ UNCHANGED <<s, up, base, acked, ids, bus>>

----------------------------------------------------------------------------
(* Handles, closing, dying, opening                                                                 *)

Clone == /\ up > 0 /\ up < MaxHandles /\ step = 0 /\ up' = up + 1
         /\ UNCHANGED <<f, s, m, step, b, base, w, acked, ids, cnt, exact, bus>>

Cut == [d |-> Resize(f.d, Total(m.d)), i |-> Resize(f.i, Total(m.i))]
Drop ==
  /\ up > 0 /\ step = 0
  /\ up' = up - 1
  /\ IF ~InMem /\ (up = 1 \/ Variant = "shrink_any") THEN f' = Cut ELSE UNCHANGED f
  /\ m' = IF up = 1 THEN [d |-> Nothing, i |-> Nothing] ELSE m
  /\ UNCHANGED <<s, step, b, base, w, acked, ids, cnt, exact, bus>>

\* the process dies; while closing, either file may have been cut already
Die ==
  /\ up > 0 /\ cnt.crash < MaxCrash /\ ~InMem
  /\ up' = 0 /\ step' = 0 /\ w' = 0 /\ base' = 0
  /\ m' = [d |-> Nothing, i |-> Nothing]
  /\ f' \in {f} \cup (IF step = 0 THEN {[f EXCEPT !.d = Cut.d], [f EXCEPT !.i = Cut.i]} ELSE {})
  /\ cnt' = [cnt EXCEPT !.crash = @ + 1] /\ exact' = FALSE
  /\ UNCHANGED <<s, b, acked, ids, bus>>

PowerFails ==
  /\ cnt.crash < MaxCrash /\ ~InMem
  /\ up' = 0 /\ step' = 0 /\ w' = 0 /\ base' = 0
  /\ m' = [d |-> Nothing, i |-> Nothing]
  /\ f' = s
  /\ cnt' = [cnt EXCEPT !.crash = @ + 1] /\ exact' = FALSE
  /\ UNCHANGED <<s, b, acked, ids, bus>>

Open ==
  /\ up = 0 /\ ~InMem
  /\ LET o == Opened(f) IN
     /\ o.ok
     /\ up' = 1 /\ m' = o.m
     \* what is shown now stays: from here on it counts as acknowledged
     /\ \E k \in 0..Len(b) : Shows(f, o.m, acked \o SubSeq(b, 1, k)) /\ acked' = acked \o SubSeq(b, 1, k)
     /\ b' = << >>
     /\ s' = IF Variant = "no_opensync" THEN s ELSE f
  /\ UNCHANGED <<f, step, base, w, ids, cnt, exact, bus>>

Init ==
  /\ f = [d |-> << >>, i |-> << >>] /\ s = f
  /\ m = [d |-> Nothing, i |-> Nothing]
  /\ up = 1 /\ step = 0 /\ b = << >> /\ base = 0 /\ w = 0 /\ acked = << >> /\ ids = 0
  /\ cnt = [app |-> 0, fault |-> 0, crash |-> 0] /\ exact = TRUE /\ bus = FALSE

Next == \/ \E x \in Batches : Begin(x)
        \/ Map \/ Write \/ Flush \/ Merge(TRUE) \/ Merge(FALSE) \/ Publish \/ Ack
        \/ MapFails \/ FlushFails
        \/ Clone \/ Drop \/ Die \/ PowerFails \/ Open
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
(* F01, F02, F03, F07: what a handle shows                                                          *)
Reads ==
  up > 0 /\ ~Locked =>
    /\ step = 0 => Shows(f, m, acked)
    /\ Shows(f, m, acked) \/ Shows(f, m, acked \o b)
    /\ Cur = "ack" => Shows(f, m, acked \o b)
Length ==
  up > 0 => /\ m.i.size \in {2 * Len(acked), 2 * Len(acked \o b)}
            /\ ~Locked /\ b # << >> /\ Shows(f, m, acked) => m.i.size = 2 * Len(acked)
            /\ step = 0 => m.i.size = Total(m.i) /\ m.d.size = Total(m.d)
\* F07: no handle touches a page that is not there
NoFault == ~bus /\ (up > 0 => Total(m.d) <= Len(f.d) /\ Total(m.i) <= Len(f.i))
ClosedExactly == up = 0 /\ exact => Len(f.d) = LenOf(acked) /\ Len(f.i) = 2 * Len(acked)
\* F05, F04: opening the files as they are now
Survives == ~InMem => Recovers(f)
\* F06: opening what is on stable storage
Durable == ~InMem => Recovers(s)
\* chunks are contiguous and the maps of the two files never disagree with the sizes
Chunks == \A x \in {"d", "i"} :
            LET cs == m[x].inact \o m[x].act
            IN \A k \in 1..Len(cs) : /\ cs[k].start = (IF k = 1 THEN 0 ELSE End(cs[k - 1]))
                                     /\ \A j \in 1..Len(cs[k].bounds) : cs[k].bounds[j] > (IF j = 1 THEN 0 ELSE cs[k].bounds[j - 1])
                                     /\ cs[k].bounds # << >> /\ End(cs[k]) <= cs[k].start + cs[k].cap
=============================================================================
