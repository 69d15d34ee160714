----------------------------- MODULE BalanceGen -----------------------------
(* The design of a balance: one of even, excess v and debt v with v > 0. Checked: it always represents *)
(* the exact total. Generates one history for every transition.                                        *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS MaxOps, Bound, Variant, Emit
VARIABLES bal, total, hist
vars == <<bal, total, hist>>
Vals == {0, 1, 2, 3}
Regs == 1..2
Even == [k |-> "even", v |-> 0]
Ex(v) == [k |-> "excess", v |-> v]
De(v) == [k |-> "debt", v |-> v]
Plus(b, v) == CASE b.k = "debt" -> (IF b.v < v THEN Ex(v - b.v) ELSE IF b.v = v /\ Variant # "debt_zero" THEN Even ELSE De(b.v - v))
                [] b.k = "even" -> (IF v = 0 THEN Even ELSE Ex(v))
                [] b.k = "excess" -> Ex(b.v + v)
Less(b, v) == CASE b.k = "debt" -> De(b.v + v)
                [] b.k = "even" -> (IF v = 0 THEN Even ELSE De(v))
                [] b.k = "excess" -> (IF b.v < v THEN De(v - b.v) ELSE IF b.v = v THEN Even ELSE Ex(b.v - v))
Join(b, c) == CASE c.k = "even" -> b [] c.k = "excess" -> Plus(b, c.v) [] c.k = "debt" -> Less(b, c.v)
Rec(o) == hist' = Append(hist, o) /\ (Emit => PrintT(<<"HIST", ToJson(hist')>>))
GInit == bal = [r \in Regs |-> Even] /\ total = [r \in Regs |-> 0] /\ hist = <<>>
GNext == /\ Len(hist) < MaxOps
         /\ \E r \in Regs :
            \/ \E v \in Vals : /\ bal' = [bal EXCEPT ![r] = Plus(@, v)] /\ total' = [total EXCEPT ![r] = @ + v] /\ Rec([op |-> "add", a |-> r, v |-> v, b |-> 0])
            \/ \E v \in Vals : /\ bal' = [bal EXCEPT ![r] = Less(@, v)] /\ total' = [total EXCEPT ![r] = @ - v] /\ Rec([op |-> "sub", a |-> r, v |-> v, b |-> 0])
            \/ \E q \in Regs : /\ bal' = [bal EXCEPT ![r] = Join(@, bal[q])] /\ total' = [total EXCEPT ![r] = @ + total[q]] /\ Rec([op |-> "join", a |-> r, v |-> 0, b |-> q])
         /\ \A r \in Regs : total'[r] \in -Bound..Bound
GSpec == GInit /\ [][GNext]_vars
GView == <<bal, total>>
Exact == \A r \in Regs : CASE total[r] = 0 -> bal[r] = Even [] total[r] > 0 -> bal[r] = Ex(total[r]) [] OTHER -> bal[r] = De(-total[r])
=============================================================================
