------------------------------ MODULE Thermostat ------------------------------
(* The thermostat selection as a machine over its two ledgers: bal for the main coin (the fee is in   *)
(* it until the end) and abal per token. Inputs are added, excesses are moved into one change output   *)
(* per token, whose main coin is kept between a minimum and a maximum, and changes may be split.       *)
(* Checked at every step: the ledgers are inputs minus outputs minus changes; at the end the           *)
(* transaction is balanced, pays the required fee and has no negative change.                          *)
EXTENDS Select, TLC
CONSTANTS Variant, MaxExtra, Cases
VARIABLES phase, req, todo, sel, changes, xtra, bal, abal, nin, nout, nx, last
vars == <<ut, nt, est, avail, phase, req, todo, sel, changes, xtra, bal, abal, nin, nout, nx, last>>
Table == <<[v |-> 5, t |-> <<0, 0>>], [v |-> 2, t |-> <<3, 0>>], [v |-> 9, t |-> <<0, 2>>], [v |-> 20, t |-> <<0, 0>>], [v |-> 1, t |-> <<1, 0>>], [v |-> 30, t |-> <<6, 0>>],
           [v |-> 4, t |-> <<2, 1>>]>>
O(v, a, b) == [v |-> v, t |-> <<a, b>>, a |-> 1]
R(fixed, outs) == [fixed |-> fixed, outs |-> outs, pre |-> TRUE]
Requests == <<R(<<>>, <<O(3, 1, 0)>>), R(<<>>, <<O(3, 3, 0)>>), R(<<>>, <<O(6, 0, 0)>>), R(<<>>, <<O(2, 4, 1)>>), R(<<7>>, <<O(1, 1, 0), O(2, 0, 0)>>), R(<<7>>, <<O(8, 0, 2)>>)>>
E(b, i, o, m, lo, hi) == [base |-> b, in |-> i, ina |-> 0, out |-> o, outa |-> 0, min |-> m, lo |-> lo, hi |-> hi]
CasesQ == {E(1, 1, 1, 2, 4, 8), E(0, 1, 2, 0, 2, 3)}
CasesT == {E(b, 1, o, m, lo, hi) : b \in {0, 2}, o \in {0, 1, 3}, m \in {0, 3}, lo \in {0, 4}, hi \in {5, 12}}
Req == Requests[req]
Fee == est.base + est.in * nin + est.out * nout
GInit == /\ ut = Table /\ nt = 2 /\ est \in Cases /\ avail \in {1..6, {1, 2, 3, 5}, {2, 4, 5}, {3, 4, 6}}
         /\ req \in DOMAIN Requests /\ phase = "tokens" /\ sel = {} /\ changes = [k \in {} |-> 0] /\ xtra = <<>>
         /\ bal = Ins(Req.fixed, 0) - Outs(Req.outs, 0) /\ abal = [k \in Toks |-> Ins(Req.fixed, k) - Outs(Req.outs, k)]
         /\ todo = {k \in Toks : Ins(Req.fixed, k) > 0 \/ Outs(Req.outs, k) > 0}
         /\ nin = Len(Req.fixed) /\ nout = Len(Req.outs) /\ nx = 0 /\ last = "none"
\* only UTxOs with nothing but the token that is looked for
Pure(k) == Largest({u \in avail \ sel : \A j \in Toks : ut[u].t[j] > 0 => j = k}, k)
Add(u) == /\ sel' = sel \cup {u} /\ bal' = bal + Amt(u, 0) /\ abal' = [k \in Toks |-> abal[k] + Amt(u, k)] /\ nin' = nin + 1
Fail == phase' = "done" /\ last' = "err"
Pos(x) == IF x > 0 THEN x ELSE 0
\* the excess of token k goes into its change
Move(k) ==
  LET w == Pos(bal - Fee)
      old == k \in DOMAIN changes
      v0 == IF old THEN changes[k].v + w ELSE w
      \* a new change gets at least the minimum, and its own fee stays in the ledger when it can
      v1 == IF old THEN v0 ELSE IF v0 < est.min THEN est.min ELSE v0
      pays == ~old /\ v1 >= est.min + est.out
      v2 == IF pays THEN v1 - est.out ELSE v1
      b2 == IF old THEN bal - w ELSE bal - (v1 - w) - (IF pays THEN w - est.out ELSE w)
      v3 == IF v2 < est.lo \/ v2 > est.hi THEN est.hi ELSE v2
      q == (IF old THEN changes[k].q ELSE 0) + abal[k]
  IN  /\ changes' = [j \in DOMAIN changes \cup {k} |-> IF j = k THEN [v |-> v3, q |-> q] ELSE changes[j]]
      /\ bal' = b2 + v2 - v3 /\ abal' = [abal EXCEPT ![k] = 0] /\ nout' = (IF old THEN nout ELSE nout + 1)
Tokens == /\ phase = "tokens"
          /\ IF todo = {} THEN phase' = "main" /\ UNCHANGED <<todo, sel, changes, bal, abal, nin, nout, last>>
             ELSE \E k \in todo :
               /\ IF abal[k] < 0
                  THEN /\ IF Pure(k) = {} THEN Fail /\ UNCHANGED <<sel, bal, abal, nin, todo>>
                          ELSE (\E u \in Pure(k) : Add(u)) /\ UNCHANGED <<todo, phase, last>>
                       /\ UNCHANGED <<changes, nout>>
                  ELSE /\ IF abal[k] > 0 THEN Move(k) ELSE UNCHANGED <<changes, bal, abal, nout>>
                       /\ todo' = todo \ {k} /\ UNCHANGED <<sel, nin, phase, last>>
          /\ UNCHANGED <<ut, nt, est, avail, req, xtra, nx>>
Main == /\ phase = "main"
        /\ IF bal - Fee < 0 THEN (IF Pure(0) = {} THEN Fail /\ UNCHANGED <<sel, bal, abal, nin>> ELSE (\E u \in Pure(0) : Add(u)) /\ UNCHANGED <<phase, last>>)
           ELSE phase' = "extra" /\ UNCHANGED <<sel, bal, abal, nin, last>>
        /\ UNCHANGED <<ut, nt, est, avail, req, todo, changes, xtra, nout, nx>>
Assets == {k \in Toks : Ins(Req.fixed, k) > 0 \/ Outs(Req.outs, k) > 0}
\* more inputs, as far as there is room
Extra == /\ phase = "extra"
         /\ \/ nx < MaxExtra /\ nx' = nx + 1 /\ (\E k \in (IF Assets = {} THEN {0} ELSE Assets) : \E u \in Pure(k) : Add(u)) /\ UNCHANGED <<phase, todo, last>>
            \/ phase' = "excess" /\ todo' = Assets /\ UNCHANGED <<nx, sel, bal, abal, nin, last>>
         /\ UNCHANGED <<ut, nt, est, avail, req, changes, xtra, nout>>
Excess == /\ phase = "excess" /\ todo # {}
          /\ \E k \in todo : (IF abal[k] > 0 THEN Move(k) ELSE UNCHANGED <<changes, bal, abal, nout>>) /\ todo' = todo \ {k}
          /\ UNCHANGED <<ut, nt, est, avail, phase, req, sel, xtra, nin, nx, last>>
\* the rest of the main coin
MainExcess == /\ phase = "excess" /\ todo = {} /\ phase' = "split"
              /\ LET x == bal - Fee IN
                 IF x > 0 /\ x >= est.min + est.out
                 THEN changes' = [j \in DOMAIN changes \cup {0} |-> IF j = 0 THEN [v |-> x - est.out, q |-> 0] ELSE changes[j]] /\ bal' = bal - (IF Variant = "feetwice" THEN x + est.out ELSE x - est.out) /\ nout' = nout + 1
                 ELSE UNCHANGED <<changes, bal, nout>>
              /\ todo' = DOMAIN changes'
              /\ UNCHANGED <<ut, nt, est, avail, req, sel, xtra, abal, nin, nx, last>>
\* a change may be split in two; the fee of the new output comes out of it
Split == /\ phase = "split" /\ todo # {}
         /\ \E k \in todo :
              LET c == changes[k]
                  h == c.q \div 2
                  f2 == est.out \div 2
                  v == c.v \div 2
              IN /\ todo' = todo \ {k}
                 /\ \/ UNCHANGED <<changes, bal, xtra, nout>>
                    \/ /\ v > f2 /\ v > est.out
                       /\ xtra' = Append(xtra, [k |-> k, v |-> v - f2, q |-> h])
                       /\ changes' = [changes EXCEPT ![k] = [v |-> c.v - (v - f2) - est.out, q |-> c.q - h]]
                       /\ bal' = bal + est.out /\ nout' = nout + 1
                    \/ /\ Variant = "splitloses" /\ ~(v > f2 /\ v > est.out)
                       /\ changes' = [changes EXCEPT ![k] = [v |-> c.v, q |-> c.q - h]] /\ UNCHANGED <<bal, xtra, nout>>
         /\ UNCHANGED <<ut, nt, est, avail, phase, req, sel, abal, nin, nx, last>>
Finish == /\ phase = "split" /\ todo = {} /\ phase' = "done"
          /\ last' = (IF bal < (IF Variant = "nofinal" THEN 0 ELSE Fee) THEN "err" ELSE "ok")
          /\ UNCHANGED <<ut, nt, est, avail, req, todo, sel, changes, xtra, bal, abal, nin, nout, nx>>
GNext == Tokens \/ Main \/ Extra \/ Excess \/ MainExcess \/ Split \/ Finish
GSpec == GInit /\ [][GNext]_vars
SumC(k) == FoldSet(LAMBDA j, a : a + (IF k = 0 THEN changes[j].v ELSE IF j = k THEN changes[j].q ELSE 0), 0, DOMAIN changes)
           + FoldLeft(LAMBDA a, c : a + (IF k = 0 THEN c.v ELSE IF c.k = k THEN c.q ELSE 0), 0, xtra)
InAll(k) == Ins(Req.fixed, k) + SumOf(sel, k)
Ledgers == /\ bal = InAll(0) - Outs(Req.outs, 0) - SumC(0)
           /\ \A k \in Toks : abal[k] = InAll(k) - Outs(Req.outs, k) - SumC(k)
Success == last = "ok" => /\ bal >= Base(Req) + SetFees(sel) + est.out * (Cardinality(DOMAIN changes) + Len(xtra))
                          /\ \A k \in Toks : abal[k] = 0
                          /\ \A k \in DOMAIN changes : changes[k].v >= 0 /\ changes[k].q >= 0
                          /\ \A n \in DOMAIN xtra : xtra[n].v >= 0 /\ xtra[n].q >= 0
                          /\ sel \subseteq avail
\* a pool that plainly covers the request is not refused
Enough0 == (last = "err" /\ (nx = 0 \/ Involved(Req) = {})) => ~Plenty(Req, est.hi)
=============================================================================
