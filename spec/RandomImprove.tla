---------------------------- MODULE RandomImprove ----------------------------
(* The random-improve selection with all its random choices: per token and then for the main coin,    *)
(* inputs are drawn for every output, improved by swapping, and added up; at the end inputs are drawn *)
(* for what is missing. Checked: what is reported is what was chosen, it covers the outputs and the    *)
(* fee, and rounds neither spend twice nor lose a UTxO.                                                *)
EXTENDS Select, Functions, TLC
CONSTANTS Variant, Rounds0
VARIABLES phase, req, rounds, pass, outn, rem, rel, assoc, todo, chosen, ib, ia, fee, spent, last
vars == <<ut, nt, est, avail, phase, req, rounds, pass, outn, rem, rel, assoc, todo, chosen, ib, ia, fee, spent, last>>
Table == <<[v |-> 4, t |-> <<1, 0>>], [v |-> 3, t |-> <<0, 2>>], [v |-> 2, t |-> <<3, 1>>], [v |-> 1, t |-> <<0, 0>>], [v |-> 9, t |-> <<1, 0>>], [v |-> 2, t |-> <<0, 1>>]>>
Pool == 1..5
O(v, a, b) == [v |-> v, t |-> <<a, b>>, a |-> 1]
R(fixed, outs) == [fixed |-> fixed, outs |-> outs, pre |-> TRUE]
Requests == <<R(<<>>, <<O(2, 0, 0)>>), R(<<>>, <<O(1, 2, 0)>>), R(<<>>, <<O(1, 1, 0), O(1, 1, 0)>>), R(<<6>>, <<O(2, 0, 1), O(0, 0, 1)>>),
              R(<<>>, <<O(2, 1, 1)>>), R(<<>>, <<O(4, 3, 0)>>), R(<<>>, <<O(3, 0, 0), O(3, 0, 0), O(0, 1, 0)>>), R(<<>>, <<>>)>>
Req == Requests[req]
PassesOf(r) == SetToSortSeq(Needed(r), <) \o <<0>>
Passes == PassesOf(Req)
\* the outputs of a pass, the smallest amount first
Outputs(r, k) == SortSeq(SelectSeq(r.outs, LAMBDA o : k = 0 \/ OAmt(o, k) > 0), LAMBDA x, y : OAmt(x, k) < OAmt(y, k))
K == Passes[pass]
Os == Outputs(Req, K)
Key(n) == IF Variant = "sharedkey" THEN CHOOSE m \in DOMAIN Os : Os[m] = Os[n] /\ \A l \in DOMAIN Os : Os[l] = Os[n] => m <= l ELSE n
Relevant(S, k) == {u \in S : k = 0 \/ Amt(u, k) > 0}
None == [ok |-> TRUE, r |-> 0]
GInit == /\ ut = Table /\ nt = 2 /\ est \in {[base |-> 1, in |-> 1, ina |-> 0, out |-> 1, outa |-> 0], [base |-> 0, in |-> 0, ina |-> 1, out |-> 0, outa |-> 1]}
         /\ avail \in {Pool, {1, 3, 4}, {2, 3}} /\ phase = "idle" /\ req = 1 /\ rounds = 0 /\ pass = 1 /\ outn = 0 /\ rem = {} /\ rel = {} /\ assoc = <<>> /\ todo = {}
         /\ chosen = {} /\ ib = 0 /\ ia = <<0, 0>> /\ fee = 0 /\ spent = {} /\ last = None
\* the state at the start of a pass
Begin(r, p, S) == /\ pass' = p /\ rem' = S /\ rel' = Relevant(S, PassesOf(r)[p]) /\ outn' = Len(Outputs(r, PassesOf(r)[p]))
                  /\ assoc' = [n \in DOMAIN Outputs(r, PassesOf(r)[p]) |-> {}] /\ todo' = {}
Ask == /\ phase = "idle" /\ rounds < Rounds0 /\ rounds' = rounds + 1
       /\ \E n \in DOMAIN Requests :
            /\ req' = n /\ Begin(Requests[n], 1, avail) /\ ib' = Ins(Requests[n].fixed, 0) /\ ia' = [k \in Toks |-> Ins(Requests[n].fixed, k)]
            /\ fee' = Base(Requests[n])
       /\ chosen' = {} /\ phase' = "draw" /\ UNCHANGED <<ut, nt, est, avail, spent, last>>
Failed == /\ phase' = "idle" /\ last' = [ok |-> FALSE, r |-> req, before |-> avail] /\ avail' = (IF Variant = "lostonfail" THEN rem ELSE avail)
          /\ UNCHANGED <<ut, nt, est, req, rounds, pass, outn, rem, rel, assoc, todo, chosen, ib, ia, fee, spent>>
Draw == /\ phase = "draw"
        /\ IF outn = 0 THEN /\ phase' = "improve" /\ todo' = IF rel = {} THEN {} ELSE UNION {{<<n, u>> : u \in assoc[n]} : n \in DOMAIN Os}
                            /\ UNCHANGED <<outn, rem, rel, assoc, avail, last, ut, nt, est, req, rounds, pass, chosen, ib, ia, fee, spent>>
           ELSE IF SumOf(assoc[outn], K) >= OAmt(Os[outn], K)
                THEN outn' = outn - 1 /\ UNCHANGED <<phase, todo, rem, rel, assoc, avail, last, ut, nt, est, req, rounds, pass, chosen, ib, ia, fee, spent>>
           ELSE IF rel = {} THEN Failed
           ELSE \E u \in rel : /\ rel' = rel \ {u} /\ rem' = rem \ {u} /\ assoc' = [assoc EXCEPT ![outn] = @ \cup {u}]
                               /\ UNCHANGED <<phase, todo, outn, avail, last, ut, nt, est, req, rounds, pass, chosen, ib, ia, fee, spent>>
Abs(x) == IF x < 0 THEN -x ELSE x
Better(n, u, j) == /\ Abs(2 * Os[n].v - ut[j].v) < Abs(2 * Os[n].v - ut[u].v) /\ ut[j].v < 3 * Os[n].v
                   /\ (Variant # "noguard" => SumOf((assoc[n] \ {u}) \cup {j}, K) >= OAmt(Os[n], K))
Improve == /\ phase = "improve" /\ todo # {}
           /\ \E x \in todo, j \in rel :
                LET n == x[1] u == x[2] IN
                /\ todo' = todo \ {x}
                /\ IF Better(n, u, j) THEN assoc' = [assoc EXCEPT ![n] = (@ \ {u}) \cup {j}] /\ rel' = (rel \ {j}) \cup {u} /\ rem' = (rem \ {j}) \cup {u}
                   ELSE UNCHANGED <<assoc, rel, rem>>
           /\ UNCHANGED <<phase, outn, avail, last, ut, nt, est, req, rounds, pass, chosen, ib, ia, fee, spent>>
\* added up once per output
Sums(f(_)) == FoldFunction(LAMBDA a, b : a + b, 0, [n \in DOMAIN Os |-> f(UNION {assoc[m] : m \in {l \in DOMAIN Os : Key(l) = Key(n)}})])
Tally == /\ phase = "improve" /\ todo = {}
         /\ ib' = ib + Sums(LAMBDA S : SumOf(S, 0)) /\ ia' = [k \in Toks |-> ia[k] + Sums(LAMBDA S : SumOf(S, k))] /\ fee' = fee + Sums(LAMBDA S : SetFees(S))
         /\ chosen' = chosen \cup UNION {assoc[n] : n \in DOMAIN Os}
         /\ IF pass < Len(Passes) THEN Begin(Req, pass + 1, rem) /\ phase' = "draw" ELSE UNCHANGED <<pass, rem, rel, outn, assoc, todo>> /\ phase' = "rest"
         /\ UNCHANGED <<avail, last, ut, nt, est, req, rounds, spent>>
Rest == /\ phase = "rest"
        /\ IF ib >= Outs(Req.outs, 0) + (IF Variant = "nofee" THEN 0 ELSE fee)
           THEN /\ phase' = "idle" /\ avail' = rem /\ spent' = spent \cup chosen
                /\ last' = [ok |-> TRUE, r |-> req, before |-> avail, chosen |-> chosen, ib |-> ib, ia |-> ia, fee |-> fee, respent |-> chosen \cap spent]
                /\ UNCHANGED <<rem, ib, ia, fee, chosen, pass, rel, outn, assoc, todo, ut, nt, est, req, rounds>>
           ELSE IF rem = {} \/ Variant = "norest" THEN Failed
           ELSE \E u \in rem : /\ rem' = rem \ {u} /\ ib' = ib + Amt(u, 0) /\ ia' = [k \in Toks |-> ia[k] + Amt(u, k)] /\ fee' = fee + InFee(u) /\ chosen' = chosen \cup {u}
                               /\ UNCHANGED <<phase, avail, last, spent, pass, rel, outn, assoc, todo, ut, nt, est, req, rounds>>
GNext == Ask \/ Draw \/ Improve \/ Tally \/ Rest
GSpec == GInit /\ [][GNext]_vars
LastReq == Requests[last.r]
Reported == (last.r # 0 /\ last.ok) =>
  LET s == LastReq.fixed \o SetToSeq(last.chosen) IN
  /\ last.ib = Ins(s, 0) /\ (\A k \in Toks : last.ia[k] = Ins(s, k)) /\ last.fee = Base(LastReq) + SetFees(last.chosen)
Covered == (last.r # 0 /\ last.ok) =>
  LET s == LastReq.fixed \o SetToSeq(last.chosen) IN
  /\ Ins(s, 0) >= Outs(LastReq.outs, 0) + Base(LastReq) + SetFees(last.chosen) /\ \A k \in Toks : Ins(s, k) >= Outs(LastReq.outs, k)
OnceEach == /\ avail \cap spent = {}
            /\ last.r # 0 => IF last.ok THEN last.respent = {} /\ last.chosen \subseteq last.before /\ (phase = "idle" => avail = last.before \ last.chosen) ELSE (phase = "idle" => avail = last.before)
\* nothing is associated twice while a pass runs
Disjoint == Variant = "ok" => \A n, m \in DOMAIN assoc : n # m => assoc[n] \cap assoc[m] = {}
GView == <<est, avail, phase, req, rounds, pass, outn, rem, rel, assoc, todo, chosen, ib, ia, fee, spent, last>>
\* a pool that plainly covers the request is not refused
Enough0 == (last.r # 0 /\ ~last.ok /\ phase = "idle" /\ avail = last.before) => ~DrawsEnough(LastReq)
=============================================================================
