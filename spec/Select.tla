------------------------------- MODULE Select -------------------------------
(* Input selection and change. A pool of UTxOs (ut[u].v main coin, ut[u].t[k] of token k), of which  *)
(* avail are offered; a request r has fixed inputs and outputs; est are linear fee parameters. A    *)
(* record r of a recorded answer has in addition what the implementation returned.                  *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt
VARIABLES ut, nt, est, avail

Toks == 1..nt
Amt(u, k) == IF k = 0 THEN ut[u].v ELSE ut[u].t[k]
OAmt(o, k) == IF k = 0 THEN o.v ELSE o.t[k]
Ins(s, k) == FoldLeft(LAMBDA a, u : a + Amt(u, k), 0, s)
Outs(s, k) == FoldLeft(LAMBDA a, o : a + OAmt(o, k), 0, s)
SumOf(S, k) == FoldSet(LAMBDA u, a : a + Amt(u, k), 0, S)
NTok(t) == Cardinality({k \in Toks : t[k] # 0})
InFee(u) == est.in + est.ina * NTok(ut[u].t)
OutFee(o) == est.out + est.outa * NTok(o.t)
InFees(s) == FoldLeft(LAMBDA a, u : a + InFee(u), 0, s)
OutFees(s) == FoldLeft(LAMBDA a, o : a + OutFee(o), 0, s)
SetFees(S) == FoldSet(LAMBDA u, a : a + InFee(u), 0, S)
\* the fee of a transaction with the request's fixed parts only
Base(r) == est.base + (IF r.pre THEN InFees(r.fixed) + OutFees(r.outs) ELSE 0)

(* ---- largest first (S01) ---- *)
Largest(S, k) == LET T == IF k = 0 THEN S ELSE {u \in S : Amt(u, k) > 0}
                 IN  {u \in T : \A w \in T : Amt(w, k) <= Amt(u, k)}
ShortOf(r, picks, k) == Ins(r.fixed, k) + SumOf(picks, k) < Outs(r.outs, k)
ShortOfMain(r, picks) == Ins(r.fixed, 0) + SumOf(picks, 0) < Outs(r.outs, 0) + Base(r) + SetFees(picks)
\* what is looked for next: the first token of the order that is short, then the main coin (0); -1: nothing
Wanted(r, order, picks) ==
  LET I == {i \in DOMAIN order : ShortOf(r, picks, order[i])}
  IN  IF I # {} THEN order[Min(I)] ELSE IF ShortOfMain(r, picks) THEN 0 ELSE -1
RECURSIVE Reaches(_, _, _, _)
Reaches(r, order, picks, target) ==
  LET k == Wanted(r, order, picks)
  IN  IF k = -1 THEN picks = target
      ELSE \E u \in Largest(avail \ picks, k) \cap target : Reaches(r, order, picks \cup {u}, target)
RECURSIVE RunsOut(_, _, _)
RunsOut(r, order, picks) ==
  LET k == Wanted(r, order, picks)
      C == Largest(avail \ picks, k)
  IN  k # -1 /\ (C = {} \/ \E u \in C : RunsOut(r, order, picks \cup {u}))
Needed(r) == {k \in Toks : Outs(r.outs, k) > 0}
Orders(r) == SetToSeqs(Needed(r))
\* everything together covers the request
AllCover(r, S) == (\A k \in Toks : ~ShortOf(r, S, k)) /\ ~ShortOfMain(r, S)
LargestFirst(r) ==
  CASE r.res = "ok"  -> \E o \in Orders(r) : Reaches(r, o, {}, ToSet(r.chosen))
    [] r.res = "err" -> /\ ~AllCover(r, avail)
                        /\ \E o \in Orders(r) : RunsOut(r, o, {})
    [] OTHER -> FALSE

(* ---- accounting (S02) ---- *)
AllIns(r) == r.fixed \o r.chosen
AllOuts(r) == r.outs \o r.changes
Estimate(r) == Base(r) + InFees(r.chosen) + OutFees(r.changes)
Even(r) == /\ Ins(AllIns(r), 0) = Outs(AllOuts(r), 0) + r.fee
           /\ \A k \in Toks : Ins(AllIns(r), k) = Outs(AllOuts(r), k)
Accounts(r) ==
  r.res = "ok" =>
    /\ ToSet(r.chosen) \subseteq avail /\ IsInjective(r.chosen)
    /\ ToSet(r.after) = avail \ ToSet(r.chosen) /\ r.same
    /\ r.ib = Ins(AllIns(r), 0) /\ r.ob = Outs(AllOuts(r), 0)
    /\ Len(r.ia) = nt /\ Len(r.oa) = nt
    /\ \A k \in Toks : r.ia[k] = Ins(AllIns(r), k) /\ r.oa[k] = Outs(AllOuts(r), k)
    /\ IF r.algo \in {"largest", "random"} THEN r.fee = Estimate(r) ELSE r.fee >= Estimate(r)
    /\ r.bal = Even(r) /\ r.ubal = Even(r)

(* ---- covering (S03) ---- *)
Covers(r) ==
  r.res = "ok" =>
    /\ Ins(AllIns(r), 0) >= Outs(AllOuts(r), 0) + r.fee
    /\ r.fee >= Estimate(r)
    /\ \A k \in Toks : Ins(AllIns(r), k) >= Outs(AllOuts(r), k)

(* ---- change (S04, S05) ---- *)
NoNegative(r) == \A c \in ToSet(r.changes) : ~c.neg /\ c.v >= 0 /\ Len(c.t) = nt /\ \A k \in Toks : c.t[k] >= 0
Balanced(r) == Even(r) /\ NoNegative(r) /\ \A c \in ToSet(r.changes) : c.a = r.change
Surplus(r, k) == Ins(r.fixed, k) - Outs(r.outs, k)
\* the balancers see inputs and outputs as fixed; base is the fee of what is there
Left(r, base) == Surplus(r, 0) - base
ChangeOf(r, v) == [v |-> v, t |-> [k \in Toks |-> Surplus(r, k)]]
Changes(r, base) ==
  CASE r.algo = "fee" ->
         IF (\A k \in Toks : Surplus(r, k) = 0) /\ Left(r, base) >= 0
         THEN r.res = "ok" /\ Even(r) /\ r.chosen = <<>> /\ r.changes = <<>>
         ELSE r.res = "err"
    [] r.algo = "single" ->
         IF r.change > 0 /\ (\A k \in Toks : Surplus(r, k) >= 0) /\ Left(r, base) >= OutFee(ChangeOf(r, 0))
         THEN r.res = "ok" /\ Balanced(r) /\ r.chosen = <<>> /\ r.fee >= base + OutFees(r.changes)
         ELSE r.res = "err"
Thermostat(r) == r.res = "ok" => Balanced(r)

(* ---- rounds (S06) ---- *)
Rounds(r) ==
  /\ r.res = "ok" => ToSet(r.chosen) \subseteq avail /\ IsInjective(r.chosen)
  /\ IsInjective(r.after) /\ ToSet(r.after) = IF r.res = "ok" THEN avail \ ToSet(r.chosen) ELSE avail
  /\ r.afters = r.after

(* ---- enough (S07): what plainly covers a request, whatever is drawn and in whatever order ---- *)
Needs(r, k) == k = 0 \/ Outs(r.outs, k) > 0
\* UTxOs no other needed token draws on
Solely(r, k) == {u \in avail : (k = 0 \/ Amt(u, k) > 0) /\ \A j \in Toks : (j # k /\ Needs(r, j)) => ut[u].t[j] = 0}
MaxAmt(k) == Max({0} \cup {Amt(u, k) : u \in avail})
Wasted(r, k) == IF r.outs = <<>> THEN 0 ELSE (Len(r.outs) - 1) * MaxAmt(k)
\* every output draws for itself, and draws too much by less than one UTxO
DrawsEnough(r) == /\ AllCover(r, avail)
                  /\ \A k \in 0..nt : Needs(r, k) => SumOf(Solely(r, k), k) >= Outs(r.outs, k) + Wasted(r, k)
Involved(r) == {k \in Toks : Ins(r.fixed, k) # 0 \/ Outs(r.outs, k) # 0}
Only(k) == {u \in avail : \A j \in Toks : (ut[u].t[j] # 0) <=> (j = k)}
\* the thermostat uses UTxOs of one token, and its token changes keep up to hi of the main coin
Plenty(r, hi) ==
  LET I == Involved(r) IN
  /\ \A k \in I : Ins(r.fixed, k) + SumOf(Only(k), k) >= Outs(r.outs, k)
  /\ Ins(r.fixed, 0) + SumOf(Only(0), 0) >= Outs(r.outs, 0) + Base(r) + SetFees(Only(0)) + SetFees(UNION {Only(k) : k \in I}) + Cardinality(I) * (hi + est.out + est.outa)
\* it does not take token UTxOs it has no need for
NoExtra(r) == est.max = 0 \/ \A k \in Involved(r) : Cardinality({u \in avail : ut[u].t[k] # 0}) <= est.acc
Enough(r) ==
  CASE r.algo = "largest" -> AllCover(r, avail)
    [] r.algo = "random" -> DrawsEnough(r)
    [] OTHER -> r.change > 0 /\ Plenty(r, est.hi) /\ NoExtra(r)
Answers(r) == r.res # "panic" /\ (Enough(r) => r.res = "ok")

Judge(p, e) ==
  CASE e.op = "offer" -> p = "S06" => ToSet(e.after) = ToSet(e.pool) /\ IsInjective(e.after)
    [] e.op = "balance" -> p = "S04" => Changes(e, Base(e))
    [] OTHER -> /\ p = "S01" => LargestFirst(e)
                /\ p = "S02" => e.res # "panic" /\ Accounts(e)
                /\ p = "S03" => e.res # "panic" /\ Covers(e)
                /\ (p = "S04" /\ e.algo \in {"fee", "single"}) => Changes(e, Base(e))
                /\ p = "S05" => e.res # "panic" /\ Thermostat(e)
                /\ p = "S06" => Rounds(e)
                /\ p = "S07" => Answers(e)
After(e) ==
  CASE e.op = "offer" -> ToSet(e.pool)
    [] e.op = "balance" \/ e.res # "ok" -> avail
    [] OTHER -> avail \ ToSet(e.chosen)
=============================================================================
