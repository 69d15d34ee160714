----------------------------- MODULE LedgerSizeMC -----------------------------
(* The estimator of the thermostat next to the transaction it estimates, part by part, with the worst *)
(* parts the ledger allows within its terms: it never falls below the real size.                       *)
EXTENDS LedgerSize, TLC
CONSTANTS Variant, MaxIn, MaxOut
VARIABLES tx, est, cost
vars == <<tx, est, cost>>
\* cost is the estimate in bytes that is paid for
Overhead == 50
GInit == \E q \in 0..5, k \in {1, 3, 24, 30} :
           /\ q <= k /\ tx = Empty(q, k)
           /\ est = 17 + Overhead + Overhead + (3 + Script(q, k)) + (IF Variant = "nowitness" THEN 0 ELSE q * 108)
           /\ cost = 17 + Overhead + (3 + Script(q, k)) + q * 108
In == /\ tx.ni < MaxIn /\ \E idx \in {0, 23, 24, 255, 256, 65535} : tx' = WithIn(tx, idx)
      /\ est' = est + 38 /\ cost' = cost + 38
Out == /\ tx.no < MaxOut /\ \E addr \in {29, 57}, name \in {-1, 0, 23, 24, 32} : tx' = WithOut(tx, addr, 9, name, 9)
       /\ est' = est + 153 /\ cost' = cost + 153
Magic == /\ tx.magic = -1 /\ \E len \in {0, 23, 24, 64} : tx' = WithMagic(tx, len) /\ est' = (IF Variant = "magicsets" THEN 0 ELSE est) + len + 5 /\ cost' = cost + len + 5
GNext == In \/ Out \/ Magic
GSpec == GInit /\ [][GNext]_vars
Enough == est >= Size(tx) /\ cost >= Size(tx)
\* the slack of a part does not depend on what was there before
GView == <<tx.ni, tx.no, tx.q, tx.k, tx.magic, est - Size(tx), cost - Size(tx)>>
=============================================================================
