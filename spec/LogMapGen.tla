----------------------------- MODULE LogMapGen -----------------------------
(* The design of the map, and histories of it: a log of values beside an index from keys to positions, *)
(* both kept in files. Generates one history for every transition between two states (up to values).   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Keys, MaxLen, MaxOpen, Variant
VARIABLES log,    \* sequence of keys: the value of entry j is j
          index,  \* key -> position, the contents of the key index
          isopen, \* "no", "idx", "noidx", "ro"
          opens, hist
vars == <<log, index, isopen, opens, hist>>
GInit == log = << >> /\ index = << >> /\ isopen = "idx" /\ opens = 1 /\ hist = << >>
Rec(o, k) == hist' = Append(hist, [op |-> o, key |-> k]) /\ PrintT(<<"HIST", ToJson(hist')>>)
Put(k) ==
  /\ isopen = "idx" /\ Len(log) < MaxLen
  /\ log' = Append(log, k)
  /\ index' = IF Variant = "keep_first" /\ k \in DOMAIN index THEN index
              ELSE [x \in DOMAIN index \cup {k} |-> IF x = k THEN Len(log) + 1 ELSE index[x]]
  /\ UNCHANGED <<isopen, opens>> /\ Rec("put", k)
Refused(k) == /\ isopen \in {"noidx", "ro"} /\ UNCHANGED <<log, index, isopen, opens>> /\ Rec("put", k)
Close == isopen # "no" /\ isopen' = "no" /\ UNCHANGED <<log, index, opens>> /\ Rec("close", "-")
Open(m) == isopen = "no" /\ opens < MaxOpen /\ isopen' = m /\ opens' = opens + 1 /\ UNCHANGED <<log, index>> /\ Rec(m, "-")
GNext == \/ \E k \in Keys : Put(k) \/ Refused(k)
         \/ Close \/ \E m \in {"idx", "noidx", "ro"} : Open(m)
GSpec == GInit /\ [][GNext]_vars
GView == <<log, index, isopen, opens>>
\* looking a key up by the index finds the latest value, and the index has exactly the keys of the log
Latest(key) == LET ps == {j \in 1..Len(log) : log[j] = key} IN CHOOSE j \in ps : \A x \in ps : x <= j
IndexOk == /\ DOMAIN index = {log[j] : j \in 1..Len(log)}
           /\ \A k \in DOMAIN index : index[k] = Latest(k)
=============================================================================
