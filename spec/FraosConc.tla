------------------------------ MODULE FraosConc ------------------------------
(* Threads that append to and read one log, step by step: an append takes the write lock, reads the *)
(* length, adds the data, adds the index entries (both become visible at once), publishes the length *)
(* and returns the length it had read; a read looks the record up in the index and then fetches the  *)
(* data. Checked: the observations FraosConcTrace accepts are the ones this design can make.         *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Threads, MaxOps, Lens, Variant
VARIABLES lock, data, idx, size, pc, loc, ops, lo, cnt, bad
vars == <<lock, data, idx, size, pc, loc, ops, lo, cnt, bad>>
None == 0
Max(a, b) == IF a > b THEN a ELSE b

Init == /\ lock = None /\ data = << >> /\ idx = << >> /\ size = 0
        /\ pc = [t \in Threads |-> "idle"] /\ loc = [t \in Threads |-> << >>]
        /\ ops = [t \in Threads |-> 0] /\ lo = 0 /\ cnt = 0 /\ bad = "no"

Recs(t, n) == [k \in 1..n |-> <<t, ops[t], k, n>>]
\* positions (from 0) of batch ends in the index
Ends == {0} \cup {k \in 1..Len(idx) : idx[k][3] = idx[k][4]}
BatchEnd(n) == CHOOSE e \in Ends : e > n /\ \A x \in Ends : x > n => e <= x

StartAppend(t, n) ==
  /\ pc[t] = "idle" /\ ops[t] < MaxOps
  /\ pc' = [pc EXCEPT ![t] = "lock"] /\ loc' = [loc EXCEPT ![t] = [n |-> n, base |-> 0, lo |-> lo, cnt |-> cnt]]
  /\ ops' = [ops EXCEPT ![t] = @ + 1]
  /\ UNCHANGED <<lock, data, idx, size, lo, cnt, bad>>
Lock(t) ==
  /\ pc[t] = "lock" /\ (lock = None \/ Variant = "no_lock")
  /\ lock' = IF Variant = "no_lock" THEN lock ELSE t
  /\ pc' = [pc EXCEPT ![t] = IF Variant = "index_first" THEN "index" ELSE "data"]
  /\ loc' = [loc EXCEPT ![t].base = size]
  /\ UNCHANGED <<data, idx, size, ops, lo, cnt, bad>>
Data(t) ==
  /\ pc[t] = "data"
  /\ data' = data \o Recs(t, loc[t].n)
  /\ pc' = [pc EXCEPT ![t] = IF Variant = "index_first" THEN "publish" ELSE "index"]
  /\ UNCHANGED <<lock, idx, size, loc, ops, lo, cnt, bad>>
Index(t) ==
  /\ pc[t] = "index"
  /\ idx' = idx \o Recs(t, loc[t].n)
  /\ pc' = [pc EXCEPT ![t] = IF Variant = "index_first" THEN "data" ELSE "publish"]
  /\ UNCHANGED <<lock, data, size, loc, ops, lo, cnt, bad>>
Publish(t) ==
  /\ pc[t] = "publish"
  /\ size' = size + loc[t].n
  /\ pc' = [pc EXCEPT ![t] = "ret"]
  /\ UNCHANGED <<lock, data, idx, loc, ops, lo, cnt, bad>>
EndAppend(t) ==
  /\ pc[t] = "ret"
  /\ lock' = IF lock = t THEN None ELSE lock
  /\ pc' = [pc EXCEPT ![t] = "idle"] /\ loc' = [loc EXCEPT ![t] = << >>]
  /\ LET l == loc[t] IN
     /\ lo' = Max(lo, l.base + l.n) /\ cnt' = Max(cnt, l.base + l.n)
     /\ bad' = IF l.base < l.lo THEN "real-time order of numbers"
               ELSE IF l.base + l.n > Len(idx) \/ \E k \in 1..l.n : idx[l.base + k] # Recs(t, l.n)[k] THEN "number of the batch"
               ELSE bad
  /\ UNCHANGED <<data, idx, size, ops>>

StartGet(t, n) ==
  /\ pc[t] = "idle" /\ ops[t] < MaxOps
  /\ pc' = [pc EXCEPT ![t] = "find"] /\ loc' = [loc EXCEPT ![t] = [n |-> n, lo |-> lo, cnt |-> cnt]]
  /\ ops' = [ops EXCEPT ![t] = @ + 1]
  /\ UNCHANGED <<lock, data, idx, size, lo, cnt, bad>>
Find(t) ==
  /\ pc[t] = "find"
  /\ IF loc[t].n < Len(idx) THEN pc' = [pc EXCEPT ![t] = "fetch"] /\ UNCHANGED <<bad, loc>>
     ELSE /\ pc' = [pc EXCEPT ![t] = "idle"] /\ loc' = [loc EXCEPT ![t] = << >>]
          /\ bad' = IF loc[t].n < loc[t].lo THEN "record missed" ELSE bad
  /\ UNCHANGED <<lock, data, idx, size, ops, lo, cnt>>
Fetch(t) ==
  /\ pc[t] = "fetch"
  /\ pc' = [pc EXCEPT ![t] = "idle"] /\ loc' = [loc EXCEPT ![t] = << >>]
  /\ bad' = IF loc[t].n >= Len(data) THEN "index without data"
            ELSE IF data[loc[t].n + 1] # idx[loc[t].n + 1] THEN "wrong bytes" ELSE bad
  /\ lo' = Max(lo, BatchEnd(loc[t].n))
  /\ UNCHANGED <<lock, data, idx, size, ops, cnt>>
StartLen(t) ==
  /\ pc[t] = "idle" /\ ops[t] < MaxOps
  /\ pc' = [pc EXCEPT ![t] = "len"] /\ loc' = [loc EXCEPT ![t] = [lo |-> lo, cnt |-> cnt]]
  /\ ops' = [ops EXCEPT ![t] = @ + 1]
  /\ UNCHANGED <<lock, data, idx, size, lo, cnt, bad>>
Length(t) ==
  /\ pc[t] = "len"
  /\ pc' = [pc EXCEPT ![t] = "idle"] /\ loc' = [loc EXCEPT ![t] = << >>]
  /\ bad' = IF size < loc[t].cnt THEN "length shrinks" ELSE IF size \notin Ends THEN "length inside a batch" ELSE bad
  /\ lo' = Max(lo, size) /\ cnt' = Max(cnt, size)
  /\ UNCHANGED <<lock, data, idx, size, ops>>

Next == \E t \in Threads :
          \/ \E n \in Lens : StartAppend(t, n)
          \/ Lock(t) \/ Data(t) \/ Index(t) \/ Publish(t) \/ EndAppend(t)
          \/ \E n \in 0..3 : StartGet(t, n)
          \/ Find(t) \/ Fetch(t) \/ StartLen(t) \/ Length(t)
Spec == Init /\ [][Next]_vars
Ok == bad = "no"
LenReadable == size <= Len(idx) /\ (Variant # "index_first" => size <= Len(data))
Grows == [][size' >= size /\ SubSeq(idx', 1, Len(idx)) = idx]_vars
=============================================================================
