------------------------------- MODULE EraMC -------------------------------
(* The clock ticks through a few epochs of every small era; the closed form describes it all the time, *)
(* and describes nothing else.                                                                         *)
EXTENDS EraClock, TLC
CONSTANTS MaxN, Variant
N(k) == NOf(k)
GInit == /\ \E f \in 0..MaxN, s \in 0..2, k \in {0, 7}, l \in 1..3, p \in 1..MaxN :
              era = [first |-> N(f), start |-> N(s), known |-> N(k), len |-> N(l), secs |-> N(l * p), per |-> N(p)]
         /\ clock = Start(era)
More == NLess(clock.slot, NAdd(era.first, N(3 * MaxN)))
GNext == More /\ IF Variant = "seconds" THEN clock' = [Ticked([era EXCEPT !.per = era.secs], clock) EXCEPT !.time = NAdd(clock.time, era.len)] /\ UNCHANGED era ELSE Tick
GSpec == GInit /\ [][GNext]_<<era, clock>>
Valid == ValidEra(era)
Closed == Reading(era, clock)
Unique == \A e \in 0..(2 * MaxN + 2), r \in 0..MaxN :
  LET c == [clock EXCEPT !.epoch = N(e), !.rel = N(r)] IN Reading(era, c) => c = clock
=============================================================================
