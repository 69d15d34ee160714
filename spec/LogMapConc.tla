----------------------------- MODULE LogMapConc -----------------------------
(* Threads that insert into and read one map. An insert appends to the log (atomic, see FraosConc) and *)
(* then sets the position in the key index, keeping the greater one. A lookup reads the index, then    *)
(* the log. Checked: what LogMapConcTrace accepts.                                                     *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Threads, Keys, MaxOps, Variant
VARIABLES log, index, pc, loc, ops, ret, bad
vars == <<log, index, pc, loc, ops, ret, bad>>
Init == /\ log = << >> /\ index = [k \in Keys |-> 0]
        /\ pc = [t \in Threads |-> "idle"] /\ loc = [t \in Threads |-> << >>] /\ ops = [t \in Threads |-> 0]
        /\ ret = {}    \* positions of inserts that have returned
        /\ bad = "no"
Max(a, b) == IF a > b THEN a ELSE b
Lo(k) == LET ps == {p \in ret : log[p] = k} IN IF ps = {} THEN 0 ELSE CHOOSE p \in ps : \A x \in ps : x <= p
Start(t, o, k) ==
  /\ pc[t] = "idle" /\ ops[t] < MaxOps /\ ops' = [ops EXCEPT ![t] = @ + 1]
  /\ pc' = [pc EXCEPT ![t] = o] /\ loc' = [loc EXCEPT ![t] = [k |-> k, lo |-> Lo(k), pos |-> 0, top |-> ret]]
  /\ UNCHANGED <<log, index, ret, bad>>
AppendLog(t) ==
  /\ pc[t] = "put" /\ log' = Append(log, loc[t].k)
  /\ loc' = [loc EXCEPT ![t].pos = Len(log) + 1] /\ pc' = [pc EXCEPT ![t] = "idx"]
  /\ UNCHANGED <<index, ops, ret, bad>>
SetIndex(t) ==
  /\ pc[t] = "idx"
  /\ index' = [index EXCEPT ![loc[t].k] = IF Variant = "blind" THEN loc[t].pos ELSE Max(@, loc[t].pos)]
  /\ pc' = [pc EXCEPT ![t] = "ret"] /\ UNCHANGED <<log, loc, ops, ret, bad>>
Return(t) ==
  /\ pc[t] = "ret" /\ pc' = [pc EXCEPT ![t] = "idle"] /\ ret' = ret \cup {loc[t].pos}
  /\ bad' = IF \E p \in loc[t].top : p > loc[t].pos THEN "order" ELSE bad
  /\ UNCHANGED <<log, index, loc, ops>>
Look(t) ==
  /\ pc[t] = "get" /\ pc' = [pc EXCEPT ![t] = "idle"]
  /\ bad' = IF index[loc[t].k] < loc[t].lo THEN "stale" ELSE IF index[loc[t].k] > 0 /\ log[index[loc[t].k]] # loc[t].k THEN "wrong" ELSE bad
  /\ UNCHANGED <<log, index, loc, ops, ret>>
Next == \E t \in Threads : \/ \E k \in Keys, o \in {"put", "get"} : Start(t, o, k)
                           \/ AppendLog(t) \/ SetIndex(t) \/ Return(t) \/ Look(t)
Spec == Init /\ [][Next]_vars
Ok == bad = "no"
Quiet == \A t \in Threads : pc[t] = "idle"
Points == Quiet => \A k \in Keys : index[k] = Lo(k)
=============================================================================
