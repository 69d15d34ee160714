----------------------------- MODULE LedgerForm -----------------------------
(* A UTxO and its ledger form. Inside, amounts are decimals of any size and a token may be listed in  *)
(* parts; on the ledger, amounts are whole numbers below 2^64 and a token has one quantity. Amounts    *)
(* are [neg, l] with l the limbs (base 10^4, least first).                                              *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt
CONSTANT Variant
Base4 == 10000
Top64 == <<1615, 955, 737, 6744, 1844>>
RECURSIVE PlusC(_, _, _)
PlusC(a, b, c) ==
  IF a = <<>> /\ b = <<>> THEN (IF c = 0 THEN <<>> ELSE <<c>>)
  ELSE LET x == (IF a = <<>> THEN 0 ELSE a[1]) + (IF b = <<>> THEN 0 ELSE b[1]) + c
       IN  <<x % Base4>> \o PlusC(IF a = <<>> THEN a ELSE Tail(a), IF b = <<>> THEN b ELSE Tail(b), x \div Base4)
Plus(a, b) == PlusC(a, b, 0)
Fits(a) == \/ Len(a) < Len(Top64)
           \/ Len(a) = Len(Top64) /\ \E i \in DOMAIN a : a[i] <= Top64[i] /\ (\A j \in DOMAIN a : j > i => a[j] = Top64[j]) /\ (i > 1 => a[i] < Top64[i])
           \/ a = Top64
Keys(o) == {<<o.assets[i].p, o.assets[i].n>> : i \in DOMAIN o.assets}
Quantity(o, k) == FoldLeft(LAMBDA s, x : IF <<x.p, x.n>> # k THEN s ELSE IF Variant = "lastpart" THEN x.q.l ELSE Plus(s, x.q.l), <<>>, o.assets)
Well(o) == /\ o.okaddr /\ ~o.coin.neg /\ Fits(o.coin.l)
           /\ \A i \in DOMAIN o.assets : o.assets[i].ok /\ ~o.assets[i].q.neg
           /\ \A k \in Keys(o) : Fits(Quantity(o, k))
Tokens(o) == {[p |-> k[1], n |-> k[2], q |-> Quantity(o, k)] : k \in {x \in Keys(o) : Quantity(o, x) # <<>>}}
\* what the conversion of o to the ledger has to give
ToLedger(o, g) ==
  IF Well(o)
  THEN /\ g.res = "ok" /\ g.coin = o.coin.l /\ g.address = o.address /\ g.datum = o.datum /\ g.script = o.script
       /\ {x \in ToSet(g.tokens) : x.q # <<>>} = Tokens(o)
       /\ IsInjective([i \in DOMAIN g.tokens |-> <<g.tokens[i].p, g.tokens[i].n>>])
  ELSE g.res = "err"
ToInput(o, g) ==
  IF o.oktx THEN ToLedger(o, g) /\ (g.res = "ok" => g.tx = o.tx /\ g.index = o.index /\ g.kind = o.kind)
  ELSE g.res = "err"
\* and back, for outputs without tokens
FromLedger(o, g) == g.res = "ok" /\ g.coin = o.coin.l /\ g.address = o.address /\ g.extra = <<o.datum, o.script>> /\ g.tokens = 0
FromInput(o, g) == FromLedger(o, g) /\ g.tx = o.tx /\ g.index = o.index
JudgeForm(e) ==
  CASE e.op = "output" -> ToLedger(e.ask, e.got)
    [] e.op = "input" -> ToInput(e.ask, e.got)
    [] e.op = "from" -> FromLedger(e.ask, e.got)
    [] OTHER -> FromInput(e.ask, e.got)
=============================================================================
