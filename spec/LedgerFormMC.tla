----------------------------- MODULE LedgerFormMC -----------------------------
(* Lists of token parts, one part at a time, with the totals kept in step: the ledger form conserves  *)
(* every token's total however it is split and ordered.                                                *)
EXTENDS LedgerForm, TLC
CONSTANT MaxParts
VARIABLES assets, total
Amounts == {<<>>, <<1>>, <<9999>>, <<0, 1>>, <<1615, 955, 737, 6744, 1844>>}
Part(p, n, q) == [p |-> p, n |-> n, q |-> [neg |-> FALSE, l |-> q], ok |-> TRUE]
O == [okaddr |-> TRUE, address |-> "a", coin |-> [neg |-> FALSE, l |-> <<5>>], assets |-> assets, datum |-> "", script |-> ""]
Pairs == {"p", "q"} \X {"n", "m"}
GInit == assets = <<>> /\ total = [k \in Pairs |-> <<>>]
GNext == /\ Len(assets) < MaxParts
         /\ \E k \in Pairs, q \in Amounts : assets' = Append(assets, Part(k[1], k[2], q)) /\ total' = [total EXCEPT ![k] = Plus(q, @)]
GSpec == GInit /\ [][GNext]_<<assets, total>>
Conserved == \A k \in Pairs : Quantity(O, k) = total[k]
Normal == \A k \in Pairs : total[k] # <<>> => total[k][Len(total[k])] # 0
Bound == Fits(<<1615, 955, 737, 6744, 1844>>) /\ ~Fits(<<1616, 955, 737, 6744, 1844>>) /\ Fits(<<1616, 954, 737, 6744, 1844>>) /\ ~Fits(<<0, 0, 0, 0, 0, 1>>) /\ ~Fits(<<0, 956, 737, 6744, 1844>>) /\ Fits(<<9999, 9999, 9999, 9999>>) /\ Fits(<<>>)
=============================================================================
