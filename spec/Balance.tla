------------------------------ MODULE Balance ------------------------------
(* Balances (C03): a balance is a number; it is shown as even, an excess or a debt.                    *)
EXTENDS Dec
VARIABLE reg   \* registers holding balances
BInit(n) == reg = [i \in 1..n |-> DZero]
Shown(x, r) == /\ r.even = (x.g = 0) /\ r.excess = (x.g > 0) /\ r.debt = (x.g < 0)
               /\ DEq(r.v, IF x.g < 0 THEN DNeg(x) ELSE x)
New(e) == CASE e.op = "add" -> DAdd(reg[e.a], e.v)
            [] e.op = "sub" -> DSub(reg[e.a], e.v)
            [] e.op = "join" -> DAdd(reg[e.a], reg[e.b])
            [] e.op = "zero" -> DZero
Do(e) == /\ e.k = "ok" /\ reg' = [reg EXCEPT ![e.a] = New(e)]
         /\ Shown(reg'[e.a], e.r) = TRUE
         \* equality of balances is equality of the numbers
         /\ (\A b \in 1..Len(reg) : e.eqs[b] = DEq(reg'[b], reg'[e.a])) = TRUE
=============================================================================
