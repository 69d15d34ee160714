------------------------------ MODULE ChangeGen ------------------------------
(* The two change balancers on every small setup: the excess becomes the fee, or one change output    *)
(* that pays for itself. Checked: what they return is balanced and never negative, or an error.        *)
EXTENDS Select, TLC, Json
CONSTANTS Variant, Emit, MaxFix, MaxOut
VARIABLES r, hist
vars == <<ut, nt, est, avail, r, hist>>
Table == <<[v |-> 5, t |-> <<0, 0>>], [v |-> 2, t |-> <<2, 0>>], [v |-> 3, t |-> <<1, 1>>]>>
O(v, a, b) == [v |-> v, t |-> <<a, b>>, a |-> 1]
OutSet == {O(0, 0, 0), O(1, 1, 0), O(2, 0, 0), O(3, 0, 1), O(2, 2, 1)}
E(b, i, ia, o, oa) == [base |-> b, in |-> i, ina |-> ia, out |-> o, outa |-> oa]
Ests == {E(0, 0, 0, 0, 0), E(1, 0, 0, 1, 0), E(0, 1, 0, 2, 0), E(1, 0, 1, 0, 1), E(2, 0, 0, 4, 0)}
Asc == {s \in UNION {[1..n -> 1..3] : n \in 0..MaxFix} : \A i, j \in DOMAIN s : i < j => s[i] < s[j]}
OutSeqs == UNION {[1..n -> OutSet] : n \in 0..MaxOut}
None == [algo |-> "none"]
Answer(q) ==
  LET in == Ins(q.fixed, 0)
      left == Left(q, Base(q))
      c == [v |-> left - OutFee(ChangeOf(q, 0)), t |-> ChangeOf(q, 0).t, a |-> q.change, neg |-> FALSE]
      fee == IF q.algo = "fee" THEN Surplus(q, 0) ELSE Base(q) + OutFee(ChangeOf(q, 0))
      ok == IF q.algo = "fee" THEN (\A k \in Toks : Surplus(q, k) = 0) /\ left >= 0
            ELSE q.change > 0 /\ (\A k \in Toks : Surplus(q, k) >= 0) /\ left >= (IF Variant = "negative" THEN 0 ELSE OutFee(ChangeOf(q, 0)))
  IN  q @@ [res |-> IF ok THEN "ok" ELSE "err", chosen |-> <<>>, changes |-> IF q.algo = "single" THEN <<c>> ELSE <<>>, fee |-> fee]
GInit == ut = Table /\ nt = 2 /\ est \in Ests /\ avail = {} /\ r = None /\ hist = <<>>
GNext == /\ r = None
         /\ \E f \in Asc, o \in OutSeqs, al \in {"fee", "single"}, ch \in {0, 1}, pre \in BOOLEAN :
              /\ al = "fee" => ch = 0
              /\ r' = Answer([algo |-> al, fixed |-> f, outs |-> o, change |-> ch, pre |-> pre])
              /\ hist' = <<[op |-> "select", algo |-> al, fixed |-> f, outs |-> o, change |-> ch, pre |-> pre, est |-> est]>>
         /\ (Emit => PrintT(<<"HIST", ToJson(hist')>>)) /\ UNCHANGED <<ut, nt, est, avail>>
GSpec == GInit /\ [][GNext]_vars
Sound == r # None => Changes(r, Base(r)) /\ (r.res = "ok" => Even(r) /\ NoNegative(r))
=============================================================================
