-------------------------- MODULE CardanoSourceGen --------------------------
(* Every small history of the node-backed source: with Emit only between steps of the service, as the      *)
(* harness plays them; without, at any moment.                                                             *)
EXTENDS CardanoSource, TLC, Json, SequencesExt
CONSTANTS MaxBlocks, MaxPulls, MaxFaults, MaxClears, Forks, Pace, Emit
VARIABLES told, patient, pulls, faults, clears, trouble, rooted, caught, must, hist
gvars == <<svars, told, patient, pulls, faults, clears, trouble, rooted, caught, must, hist>>
Rec(o) == hist' = Append(hist, o) /\ (Emit => PrintT(<<"HIST", ToJson(hist')>>))
GInit == /\ par = <<0>> /\ cur = 1 /\ bad = {} /\ due = {TRUE} /\ pace = Pace /\ SInit
         /\ told = <<>> /\ patient = TRUE /\ pulls = 0 /\ faults = 0 /\ clears = 0 /\ trouble = FALSE /\ rooted = TRUE /\ caught = TRUE /\ must = FALSE /\ hist = <<>>
Quiet == ~Emit \/ ~Busy
Still == Quiet /\ (Emit => pulling = "no")
\* after a release comes a pull; requests nobody waits for any more are in nobody's way
Settled == Emit => ~must /\ q = <<>> /\ (Stage # "idle" => (work.ch = mine \/ plan.act = "hold"))
Ends == pulling # "no" /\ pulling' = "no"
ghosts == <<told, patient, pulls, faults, clears, rooted, caught, must>>
Disturbed == trouble' = (trouble \/ pulling # "no")
GBlock == /\ Still /\ Settled /\ Len(par) < MaxBlocks
          /\ \E p \in (IF Forks THEN 1..Len(par) ELSE {cur}) : Block(p) /\ Rec([op |-> "block", p |-> p])
          /\ Disturbed /\ UNCHANGED ghosts
GTurn == /\ Still /\ Settled /\ Forks /\ \E b \in 1..Len(par) : b # cur /\ Turn(b) /\ Rec([op |-> "turn", b |-> b])
         /\ Disturbed /\ UNCHANGED ghosts
GPlan == /\ Still /\ Settled /\ faults < MaxFaults /\ plan = NoPlan /\ faults' = faults + 1 /\ trouble' = TRUE
         /\ \/ \E s \in {"intersect", "range"}, a \in {"cut", "hold"} : Schedule([at |-> s, k |-> 0, act |-> a, b |-> 0]) /\ Rec([op |-> "plan", at |-> s, k |-> 0, act |-> a, b |-> 0])
            \/ \E k \in 0..2, a \in {"cut", "hold"} : Schedule([at |-> "block", k |-> k, act |-> a, b |-> 0]) /\ Rec([op |-> "plan", at |-> "block", k |-> k, act |-> a, b |-> 0])
            \/ Forks /\ \E b \in 1..Len(par) : b # cur /\ Schedule([at |-> "range", k |-> 0, act |-> "turn", b |-> b]) /\ Rec([op |-> "plan", at |-> "range", k |-> 0, act |-> "turn", b |-> b])
         /\ UNCHANGED <<told, patient, pulls, clears, rooted, caught, must>>
GLose == /\ Still /\ Settled /\ faults < MaxFaults /\ faults' = faults + 1 /\ trouble' = TRUE
         /\ \E u \in BOOLEAN : Lose(u) /\ Rec([op |-> IF u THEN "drop" ELSE "down"])
         /\ up /\ UNCHANGED <<told, patient, pulls, clears, rooted, caught, must>>
GBack == Still /\ Settled /\ Back /\ trouble' = TRUE /\ Rec([op |-> "up"]) /\ UNCHANGED ghosts
GRelease == Still /\ Release /\ Rec([op |-> "release"]) /\ trouble' = TRUE /\ must' = TRUE /\ UNCHANGED <<told, patient, pulls, faults, clears, rooted, caught>>
From == IF told = <<>> THEN <<0>> ELSE told
GBegin == /\ Quiet /\ pulls < MaxPulls /\ Begin /\ pulls' = pulls + 1 /\ patient' \in BOOLEAN
          \* nobody waits for a node that holds its answer
          /\ (plan.act = "hold" => ~patient') /\ (~patient' => plan.act = "hold")
          /\ Rec([op |-> "pull", from |-> told, wait |-> patient']) /\ must' = FALSE /\ UNCHANGED <<told, faults, clears, trouble, rooted, caught>>
GTake == /\ Quiet /\ Take
         /\ IF ans'.a = "block"
            THEN /\ told' = Append(told, ans'.b)
                 /\ rooted' = (rooted /\ ans'.b \notin ToSet(told) /\ (par[ans'.b] = 0 \/ par[ans'.b] \in ToSet(told)) /\ (~Forks => par[ans'.b] = (IF told = <<>> THEN 0 ELSE told[Len(told)])))
            ELSE UNCHANGED <<told, rooted>>
         /\ trouble' = (plan.act # "none" \/ conn = "lost") /\ UNCHANGED <<patient, pulls, faults, clears, caught, must, hist>>
GRenew == Quiet /\ Renew(From) /\ UNCHANGED <<ghosts, trouble, hist>>
GNone == /\ Quiet /\ None /\ caught' = (caught /\ (trouble \/ ~up \/ ToSet(Chain) \subseteq ToSet(told))) /\ trouble' = (plan.act # "none" \/ conn = "lost")
         /\ UNCHANGED <<told, patient, pulls, faults, clears, rooted, must, hist>>
GGiveUp == /\ Quiet /\ ~patient /\ (Emit => buf = <<>> /\ Alive) /\ (~Emit \/ pulling = "asked" \/ mine # 0)
           /\ GiveUp /\ UNCHANGED <<ghosts, trouble, hist>>
\* a client that goes back to an earlier block
GClear == /\ Still /\ (Emit => ~must) /\ clears < MaxClears /\ clears' = clears + 1 /\ Clear
          /\ \E k \in 0..Len(told) : (Forks => k = Len(told)) /\ told' = SubSeq(told, 1, k) /\ Rec([op |-> "clear", k |-> k])
          /\ trouble' = TRUE /\ UNCHANGED <<patient, pulls, faults, rooted, caught, must>>
GService == Service /\ UNCHANGED <<ghosts, trouble, hist>>
GNext == GService \/ GBlock \/ GTurn \/ GPlan \/ GLose \/ GBack \/ GRelease \/ GBegin \/ GTake \/ GRenew \/ GNone \/ GGiveUp \/ GClear
GSpec == GInit /\ [][GNext]_gvars
GView == <<svars, told, patient, pulls, faults, clears, trouble, rooted, caught, must>>
\* nothing twice, nothing left out
Rooted == rooted
\* none: there is nothing the client does not have, unless something went wrong since the last answer
Caught == caught
\* what is under way belongs to somebody, and what is possible is what Busy says
Kept == (ENABLED Service) = Busy
\* a pull is never left without an answer by a node that does not hold its own
Answered == (pulling = "asked" /\ ~Busy /\ plan.act # "hold") => buf # <<>> \/ ~Alive
=============================================================================
