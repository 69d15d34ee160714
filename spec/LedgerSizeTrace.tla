---------------------------- MODULE LedgerSizeTrace ----------------------------
(* A recorded session of the estimator: what it says after every part, and what it said a part costs. *)
EXTENDS LedgerSize, TLC, Json, IOUtils
VARIABLES tr, i, tx, fee, size
Traces == ndJsonDeserialize(IOEnv.TRACES)
T == Traces[tr]
Ev == T.ev
Covered(e, t) == /\ e.size >= Size(t) /\ e.fee >= LeastFee(t, T.a, T.b) /\ e.max = T.limit
TInit == tr \in 1..Len(Traces) /\ i = 1 /\ tx = Empty(T.q, T.k) /\ fee = 0 /\ size = 0
Next(e) == CASE e.op = "new" -> tx
             [] e.op = "input" -> WithIn(tx, e.idx)
             [] e.op = "output" -> WithOut(tx, e.addr, e.coin, e.name, e.qty)
             [] OTHER -> WithMagic(tx, e.len)
\* the cost of a part is what it adds
Adds(e) == e.op \in {"input", "output"} => e.cost >= 0 /\ e.fee = fee + e.cost
Grows(e) == e.op # "new" => e.size > size /\ (e.op # "magic" => e.size >= size + Size(Next(e)) - Size(tx) - 2) /\ e.fee >= fee
TNext == /\ i <= Len(Ev)
         /\ (Covered(Ev[i], Next(Ev[i])) /\ Adds(Ev[i]) /\ Grows(Ev[i])) = TRUE
         /\ tx' = Next(Ev[i]) /\ fee' = Ev[i].fee /\ size' = Ev[i].size /\ i' = i + 1 /\ UNCHANGED tr
         /\ (i' > Len(Ev) => PrintT(<<"ACCEPT", tr>>))
         /\ (Len(Traces) = 1 => PrintT(<<"AT", i>>))
TSpec == TInit /\ [][TNext]_<<tr, i, tx, fee, size>>
TView == <<tr, i>>
=============================================================================
