------------------------------ MODULE EraClock ------------------------------
(* The clock of an era: every slot belongs to an epoch, has an offset in it and a time. The clock      *)
(* starts at the era's first slot and ticks; Reading is the closed form of where it then stands.       *)
(* Numbers are naturals of Dec.                                                                        *)
EXTENDS Dec
VARIABLES era,    \* [first, start, known, len, secs, per]: per slots make an epoch of secs seconds
          clock   \* [slot, epoch, rel, time]
ValidEra(e) == e.len # <<>> /\ e.per # <<>> /\ NMul(e.per, e.len) = e.secs
Start(e) == [slot |-> e.first, epoch |-> e.start, rel |-> <<>>, time |-> e.known]
One == NOf(1)
Ticked(e, c) ==
  LET r == NAdd(c.rel, One) wrap == r = e.per IN
  [slot |-> NAdd(c.slot, One), epoch |-> IF wrap THEN NAdd(c.epoch, One) ELSE c.epoch, rel |-> IF wrap THEN <<>> ELSE r, time |-> NAdd(c.time, e.len)]
\* where the clock stands at a slot
Reading(e, c) ==
  /\ ~NLess(c.slot, e.first) /\ ~NLess(c.epoch, e.start) /\ NLess(c.rel, e.per)
  /\ NAdd(NMul(NSub(c.epoch, e.start), e.per), c.rel) = NSub(c.slot, e.first)
  /\ c.time = NAdd(e.known, NMul(NSub(c.slot, e.first), e.len))
Tick == clock' = Ticked(era, clock) /\ UNCHANGED era

(* The known networks. Their first slots and times continue the Byron era, whose slots take 20 seconds *)
(* and whose epochs have 21600 slots; the last two networks have no Byron era.                         *)
ByronSlots == NOf(21600)
ByronSlot(epoch, slot) == NAdd(NMul(epoch, ByronSlots), slot)
Net(g, s, secs) == [genesis |-> g, start |-> s, secs |-> secs]
Networks == [mainnet |-> Net(1506203091, 208, 432000), testnet |-> Net(1563999616, 74, 432000), preprod |-> Net(1654041600, 4, 432000),
             preview |-> Net(1666656000, 0, 86400), sancho |-> Net(1686789000, 0, 86400)]
Known(n) ==
  LET g == Networks[n] f == ByronSlot(NOf(g.start), <<>>) IN
  [first |-> f, start |-> NOf(g.start), known |-> NAdd(NOf(g.genesis), NMul(f, NOf(20))), len |-> One, secs |-> NOf(g.secs), per |-> NOf(g.secs)]
=============================================================================
