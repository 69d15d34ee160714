------------------------- MODULE CardanoSourceTrace -------------------------
(* Is what the node-backed source answered, over a scripted node, something the specification can answer?  *)
(* The service is brought to rest before anything else happens.                                            *)
EXTENDS CardanoSource, TLC, Json, IOUtils
VARIABLES tr, i, last
Traces == ndJsonDeserialize(IOEnv.TRACES)
T == Traces[tr]
Ev == T.ev
tvars == <<tr, i, last>>
e == Ev[i]
\* the epoch of a block after the Byron era
Epoch(s) == T.era.epoch + (s - T.era.first) \div T.era.per
Data == T.blocks
Fields(x) == LET d == Data[x.b] IN
             /\ x.same /\ x.parent = d.p /\ x.slot = d.slot /\ x.num = T.base + d.h
             /\ x.boundary = (d.kind = "ebb")
             /\ x.epoch = (IF d.kind = "shelley" THEN Epoch(d.slot) ELSE d.epoch)
\* news of the tip: the first time, and then when the pace has passed (times in ms, with some room)
Due == CASE T.pace = "always" -> {TRUE}
         [] last = <<>> -> {TRUE}
         [] T.pace = "once" -> {FALSE}
         [] T.pace = "timed" -> IF e.t0 - last[2] >= T.ms + 50 THEN {TRUE} ELSE IF e.t1 - last[1] < T.ms THEN {FALSE} ELSE {TRUE, FALSE}
TInit == /\ tr \in 1..Len(Traces) /\ i = 1 /\ last = <<>> /\ pace = Traces[tr].pace
         /\ par = <<0>> /\ cur = 1 /\ bad = {b \in 1..Len(Traces[tr].blocks) : Traces[tr].blocks[b].kind = "bad"} /\ due = {TRUE} /\ SInit
Move(ok) == /\ i' = i + 1 /\ tr' = tr
            /\ (i' > Len(Ev) => PrintT(<<"ACCEPT", tr>>)) /\ (Len(Traces) = 1 => PrintT(<<"AT", i>>))
Same == i' = i /\ tr' = tr
\* an outside step
Outside ==
  CASE e.op = "block" -> Block(e.p)
    [] e.op = "turn" -> Turn(e.b)
    [] e.op = "plan" -> Schedule([at |-> e.at, k |-> e.k, act |-> e.act, b |-> e.b])
    [] e.op = "release" -> IF plan.act = "hold" THEN Release ELSE UNCHANGED svars
    [] e.op = "drop" -> Lose(TRUE)
    [] e.op = "down" -> Lose(FALSE)
    [] e.op = "up" -> IF up THEN UNCHANGED svars ELSE Back
    [] e.op = "clear" -> Clear
    [] e.op = "stop" -> e.ans = "stopped" /\ UNCHANGED svars
    [] OTHER -> FALSE
Serve == Busy /\ Service /\ Same /\ last' = (IF Stage = "tip" /\ (due = {TRUE} \/ due' # due) THEN (IF pace = "timed" THEN <<e.t0, e.t1>> ELSE <<0, 0>>) ELSE last)
\* buffers may be cleared while the service is at work; what it has been sent, it may still be handing over
\* when the node goes on
Rest == ~Busy \/ Stage = "fetch"
Step == i <= Len(Ev) /\ (Rest \/ e.op = "clear") /\ pulling = "no" /\ e.op # "pull" /\ Outside /\ Move(TRUE) /\ UNCHANGED last
Start == Rest /\ pulling = "no" /\ i <= Len(Ev) /\ e.op = "pull" /\ pulling' = "yes" /\ ans' = [a |-> "?", b |-> 0]
         /\ due' = Due /\ Same /\ UNCHANGED <<node, conn, q, work, mine, buf, last>>
Answer == /\ pulling # "no"
          /\ Rest \/ (i < Len(Ev) /\ Ev[i + 1].op = "clear")
          /\ \/ Take /\ ans'.a = e.ans /\ (e.ans = "block" => ans'.b = e.b /\ Fields(e)) /\ (e.ans = "tip" => e.same /\ ans'.b = e.b /\ e.num = T.base + Data[e.b].h /\ e.slot = Data[e.b].slot)
             \/ None /\ e.ans = "none"
             \/ e.ans = "waiting" /\ ~e.wait /\ GiveUp
          /\ Move(TRUE) /\ UNCHANGED last
Renewal == ~Busy /\ Renew(IF e.from = <<>> THEN <<T.start>> ELSE e.from) /\ Same /\ UNCHANGED last
TNext == Serve \/ Step \/ Start \/ Answer \/ Renewal
TSpec == TInit /\ [][TNext]_<<svars, tvars>>
TView == <<svars, tvars>>
=============================================================================
