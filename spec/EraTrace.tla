------------------------------ MODULE EraTrace ------------------------------
EXTENDS EraClock, TLC, Json, IOUtils
VARIABLES tr, i
Traces == ndJsonDeserialize(IOEnv.TRACES)
T == Traces[tr]
Ev == T.ev
None == [slot |-> <<>>, epoch |-> <<>>, rel |-> <<>>, time |-> <<>>]
At1(s) == s[1]
\* what was recorded at a slot, as a clock; epoch and rel are <<>> (nothing) or <<n>>
Judge(e) ==
  CASE e.op = "preset" -> LET k == Known(e.net) IN \A f \in {"first", "start", "known", "len", "secs"} : e.era[f] = k[f]
    [] e.op = "byron" -> e.r = ByronSlot(e.epoch, e.slot)
    [] e.op = "at" -> IF NLess(e.slot, era.first) THEN e.epoch = <<>> /\ e.rel = <<>>
                      ELSE Len(e.epoch) = 1 /\ Len(e.rel) = 1 /\ Reading(era, [slot |-> e.slot, epoch |-> At1(e.epoch), rel |-> At1(e.rel), time |-> IF e.timed THEN e.time ELSE NAdd(era.known, NMul(NSub(e.slot, era.first), era.len))])
TInit == tr \in 1..Len(Traces) /\ i = 1 /\ era = T.era /\ ValidEra(T.era) /\ clock = None
Seen(e) == IF e.op = "at" /\ e.epoch # <<>> /\ e.rel # <<>> /\ e.timed THEN [slot |-> e.slot, epoch |-> At1(e.epoch), rel |-> At1(e.rel), time |-> e.time] ELSE None
TNext == /\ i <= Len(Ev) /\ Judge(Ev[i]) = TRUE
         /\ LET e == Ev[i] c == Seen(e) IN
            IF clock # None /\ c # None /\ c.slot = NAdd(clock.slot, One) THEN Tick /\ clock' = c ELSE clock' = c /\ UNCHANGED era
         /\ i' = i + 1 /\ tr' = tr
         /\ (i' > Len(Ev) => PrintT(<<"ACCEPT", tr>>))
         /\ (Len(Traces) = 1 => PrintT(<<"AT", i>>))
TSpec == TInit /\ [][TNext]_<<tr, i, era, clock>>
=============================================================================
