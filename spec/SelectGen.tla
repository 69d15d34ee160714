------------------------------ MODULE SelectGen ------------------------------
(* Rounds of largest-first selection, one UTxO at a time. Checked: selections succeed whenever all    *)
(* that is offered covers, take as few UTxOs as possible when only the main coin is asked for, and no  *)
(* UTxO is spent twice or lost over the rounds. Generates one history for every transition.            *)
EXTENDS Select, TLC, Json
CONSTANTS Rounds0, Variant, Emit, Fees
VARIABLES phase, req, order, picks, spent, last, hist
vars == <<ut, nt, est, avail, phase, req, order, picks, spent, last, hist>>
Table == <<[v |-> 5, t |-> <<0, 0>>], [v |-> 5, t |-> <<2, 0>>], [v |-> 1, t |-> <<0, 0>>], [v |-> 2, t |-> <<1, 2>>], [v |-> 3, t |-> <<0, 1>>],
           [v |-> 4, t |-> <<1, 0>>]>>
Pool == 1..5
O(v, a, b) == [v |-> v, t |-> <<a, b>>, a |-> 1]
R(fixed, outs) == [fixed |-> fixed, outs |-> outs, pre |-> TRUE]
Requests == <<R(<<>>, <<O(3, 0, 0)>>), R(<<>>, <<O(1, 1, 0)>>), R(<<>>, <<O(2, 2, 1), O(1, 0, 1)>>), R(<<>>, <<O(2, 1, 0), O(2, 1, 0)>>),
              R(<<6>>, <<O(3, 1, 0)>>), R(<<6>>, <<O(6, 0, 0), O(1, 0, 2)>>), R(<<>>, <<>>), R(<<>>, <<O(9, 0, 0)>>)>>
None == [ok |-> TRUE, r |-> 0, before |-> {}, picks |-> {}]
GInit == /\ ut = Table /\ nt = 2 /\ est \in Fees /\ avail \in (SUBSET Pool) \ {{}}
         /\ phase = "idle" /\ req = 0 /\ order = <<>> /\ picks = {} /\ spent = {} /\ last = None /\ hist = <<[op |-> "pool", pool |-> SetToSeq(avail), est |-> est]>>
Rec(o) == hist' = Append(hist, o) /\ (Emit => PrintT(<<"HIST", ToJson(hist')>>))
Ask == /\ phase = "idle" /\ Len(hist) <= Rounds0
       /\ \E n \in DOMAIN Requests : \E o \in Orders(Requests[n]) :
            req' = n /\ order' = o /\ Rec([op |-> "select", fixed |-> Requests[n].fixed, outs |-> Requests[n].outs, est |-> est])
       /\ phase' = "run" /\ picks' = {} /\ UNCHANGED <<ut, nt, est, avail, spent, last>>
Offer == /\ phase = "idle" /\ Len(hist) \in 2..Rounds0 /\ avail # Pool
         /\ avail' = Pool /\ spent' = {} /\ last' = None
         /\ Rec([op |-> "offer", pool |-> SetToSeq(Pool), est |-> est]) /\ UNCHANGED <<ut, nt, est, phase, req, order, picks>>
Seek(r) == LET k == Wanted(r, order, picks) IN
           IF k = 0 /\ Variant = "nofee" /\ Ins(r.fixed, 0) + SumOf(picks, 0) >= Outs(r.outs, 0) THEN -1 ELSE k
Step == /\ phase = "run"
        /\ LET r == Requests[req]
               k == Seek(r)
               C == IF Variant = "smallest" THEN {u \in avail \ picks : \A w \in avail \ picks : Amt(u, k) <= Amt(w, k)} ELSE Largest(avail \ picks, k)
           IN  \/ /\ k = -1 /\ phase' = "idle" /\ last' = [ok |-> TRUE, r |-> req, before |-> avail, picks |-> picks]
                  /\ avail' = (IF Variant = "respend" THEN avail ELSE avail \ picks) /\ spent' = spent \cup picks /\ picks' = {}
               \/ /\ k # -1 /\ C = {} /\ phase' = "idle" /\ last' = [ok |-> FALSE, r |-> req, before |-> avail, picks |-> {}]
                  /\ avail' = (IF Variant = "forget" THEN avail \ picks ELSE avail) /\ spent' = spent /\ picks' = {}
               \/ /\ k # -1 /\ \E u \in C : picks' = picks \cup {u}
                  /\ UNCHANGED <<phase, last, avail, spent>>
        /\ UNCHANGED <<ut, nt, est, req, order, hist>>
E(b, i, ia, o, oa) == [base |-> b, in |-> i, ina |-> ia, out |-> o, outa |-> oa]
FeesQ == {E(1, 1, 0, 1, 0), E(0, 2, 1, 0, 1)}
FeesT == {E(1, 1, 0, 1, 0), E(0, 2, 1, 0, 1), E(0, 0, 0, 0, 0), E(1, 0, 2, 0, 0), E(0, 1, 0, 2, 1)}
GNext == Ask \/ Offer \/ Step
GSpec == GInit /\ [][GNext]_vars
GView == <<est, avail, phase, req, order, picks, spent, last>>
Answer == last.r # 0 =>
  LET r == Requests[last.r] IN
  /\ (last.ok => AllCover(r, last.picks)) /\ (~last.ok => ~AllCover(r, last.before))
  /\ last.picks \subseteq last.before /\ last.picks \cap (spent \ last.picks) = {}
Fewest == (last.r # 0 /\ last.ok /\ est.ina = 0 /\ Needed(Requests[last.r]) = {}) =>
  \A S \in SUBSET last.before : Cardinality(S) < Cardinality(last.picks) => ~AllCover(Requests[last.r], S)
\* every offered UTxO is available or was returned by a successful selection, never both
NoneLost == avail \cap spent = {} /\ (last.r # 0 => (last.before = avail \cup (IF last.ok THEN last.picks ELSE {})))
=============================================================================
