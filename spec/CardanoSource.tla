---------------------------- MODULE CardanoSource ----------------------------
(* The source over a node's chain-sync and block-fetch protocols: a client that pulls, a service that      *)
(* turns a pull into one request of everything from the highest position it shares with the node up to    *)
(* the node's tip, a bounded channel between them, and a node that grows, forks, stalls and goes away.     *)
(* Blocks are numbered as they appear, block 1 is the genesis block. Positions a client may name: blocks,  *)
(* 0 for the position before genesis, negative ones for what no node knows.                                *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Cap,      \* of the channel
          Variant   \* "ok", or what a broken source does
VARIABLES par, cur, up,        \* the node: parents, tip, whether it takes connections
          bad,                 \* blocks that cannot be read
          plan,                \* what is in store for a request: at which stage ("intersect", "range", "block" after k of them), and what
          held,                \* a batch of the node's waits to be released
          conn,                \* the service's connection: "live", "lost" (not noticed yet), "none"
          q, work,             \* requests waiting, and the one being served
          pace,                \* "always": news of the tip with every request, else not again until it is due
          due,                 \* whether news of the tip is due: {TRUE}, {FALSE}, or both
          mine, buf, pulling,  \* the client's channel, what is in it, and whether a pull is under way
          ans                  \* the answer to the last pull
node == <<par, cur, up, bad, plan, pace, held>>
serv == <<conn, q, work, due>>
cli == <<mine, pulling>>
svars == <<par, cur, up, bad, plan, pace, held, conn, q, work, due, mine, buf, pulling, ans>>
RECURSIVE PathOf(_, _)
PathOf(p, b) == IF b = 0 THEN <<>> ELSE Append(PathOf(p, p[b]), b)
Chain == PathOf(par, cur)
At(C, b) == IF \E i \in 1..Len(C) : C[i] = b THEN CHOOSE i \in 1..Len(C) : C[i] = b ELSE 0
Idle == [stage |-> "idle"]
NoPlan == [at |-> "none", k |-> 0, act |-> "none", b |-> 0]
Stage == work.stage
\* somebody may still write into the client's channel
Alive == mine # 0 /\ ((Stage # "idle" /\ work.ch = mine) \/ \E j \in 1..Len(q) : q[j].ch = mine)
Room == Len(buf) < Cap
Plans(s) == plan.at = s /\ plan.act # "none"
Held(s) == Plans(s) /\ plan.act = "hold"

\* ---- the service
Done(c) == work' = Idle /\ conn' = c
Recv == /\ Stage = "idle" /\ q # <<>>
        /\ work' = [stage |-> "connect", from |-> Head(q).from, ch |-> Head(q).ch, todo |-> <<>>, n |-> 0, stop |-> -1, cut |-> FALSE] /\ q' = Tail(q)
        /\ UNCHANGED <<node, conn, due, buf>>
Connect == /\ Stage = "connect"
           /\ \/ conn = "live" /\ work' = [work EXCEPT !.stage = "intersect"] /\ conn' = conn
              \/ conn # "live" /\ up /\ Variant # "giveup" /\ work' = [work EXCEPT !.stage = "intersect"] /\ conn' = "live"
              \* a connection that is gone may only be noticed by asking
              \/ conn = "lost" /\ Done("none")
              \/ conn = "none" /\ (~up \/ Variant = "giveup") /\ Done("none")
           /\ UNCHANGED <<node, q, due, buf>>
\* where a request starts: from the position before genesis, at genesis itself
Genesis == work.from = <<0>>
Shared == LET C == Chain IN
          IF Genesis THEN 1
          ELSE LET S == {i \in 1..Len(C) : \E j \in 1..Len(work.from) : work.from[j] = C[i]} IN
               IF S = {} THEN 0 ELSE IF Variant = "lowest" THEN CHOOSE i \in S : \A j \in S : i <= j ELSE CHOOSE i \in S : \A j \in S : j <= i
Intersect == /\ Stage = "intersect" /\ ~(Held("intersect") /\ conn = "live")
             /\ IF conn # "live" THEN Done("none") /\ UNCHANGED plan
                ELSE IF Plans("intersect") /\ plan.act = "cut" THEN Done("none") /\ plan' = NoPlan
                ELSE /\ plan' = (IF Plans("intersect") THEN NoPlan ELSE plan) /\ conn' = conn
                     /\ IF Shared = 0 \/ (Shared = Len(Chain) /\ ~Genesis) THEN work' = Idle
                        ELSE work' = [work EXCEPT !.stage = "tip", !.todo = SubSeq(Chain, Shared, Len(Chain))]
             /\ UNCHANGED <<par, cur, up, bad, pace, held, q, due, buf>>
News == [a |-> "tip", b |-> work.todo[Len(work.todo)]]
TellTip == /\ Stage = "tip"
           /\ \/ TRUE \in due /\ (work.ch = mine => Room)
                 /\ buf' = (IF work.ch = mine THEN Append(buf, News) ELSE buf)
                 /\ due' = (IF pace = "always" THEN {TRUE} ELSE {FALSE})
              \/ FALSE \in due /\ UNCHANGED <<buf, due>>
           /\ work' = [work EXCEPT !.stage = "range"]
           /\ UNCHANGED <<node, conn, q>>
\* the range is asked for; the node may have left that chain in between
Ask   == /\ Stage = "range" /\ ~(Held("range") /\ conn = "live")
         /\ IF conn # "live" THEN Done("none") /\ UNCHANGED <<plan, cur>>
            ELSE IF Plans("range") /\ plan.act = "cut" THEN Done("none") /\ plan' = NoPlan /\ UNCHANGED cur
            ELSE /\ conn' = conn
                 /\ cur' = (IF Plans("range") /\ plan.act = "turn" THEN plan.b ELSE cur)
                 /\ LET C == PathOf(par, cur') IN
                    IF At(C, work.todo[1]) = 0 \/ At(C, work.todo[Len(work.todo)]) = 0 THEN work' = Idle /\ plan' = (IF Plans("range") THEN NoPlan ELSE plan)
                    \* the node sends all of it, or what its plan lets it
                    ELSE LET some == Plans("block") /\ plan.k < Len(work.todo) IN
                         /\ work' = [work EXCEPT !.stage = "fetch", !.stop = IF some THEN plan.k ELSE -1, !.cut = some /\ plan.act = "cut"]
                         /\ plan' = (IF Plans("range") \/ (some /\ plan.act = "cut") THEN NoPlan ELSE plan)
         /\ held' = (held \/ (Stage' = "fetch" /\ work'.stop >= 0 /\ ~work'.cut))
         /\ UNCHANGED <<par, up, bad, pace, q, due, buf>>
Stop == work.n = work.stop
Waits == Stop /\ ~work.cut /\ held /\ conn = "live"
Skips == work.n = 0 /\ ~(Genesis /\ Variant # "skipgenesis") /\ Variant # "noskip"
Says(b) == IF b \in bad THEN [a |-> "err", b |-> 0] ELSE [a |-> "block", b |-> b]
Fetch == /\ Stage = "fetch" /\ ~Waits
         /\ IF Stop /\ (work.cut \/ conn # "live") THEN Done("none") /\ UNCHANGED buf
            ELSE IF work.todo = <<>> THEN work' = Idle /\ UNCHANGED <<conn, buf>>
            ELSE /\ IF Skips THEN work' = [work EXCEPT !.todo = Tail(@), !.n = @ + 1] /\ UNCHANGED <<conn, buf>>
                    ELSE IF work.ch # mine THEN Done("none") /\ UNCHANGED buf    \* nobody listens: the connection is given up
                    ELSE /\ Room /\ buf' = Append(buf, Says(work.todo[1]))
                         /\ \/ work' = [work EXCEPT !.todo = Tail(@), !.n = @ + 1] /\ conn' = conn
                            \/ work.todo[1] \in bad /\ \E c \in {conn, "none"} : Done(c)    \* a batch may end with an error
         /\ UNCHANGED <<node, q, due>>
Service == (Recv \/ Connect \/ Intersect \/ TellTip \/ Ask \/ Fetch) /\ UNCHANGED <<cli, ans>>
\* exactly when a step of the service is possible
Busy == \/ Stage = "idle" /\ q # <<>>
        \/ Stage = "connect"
        \/ Stage = "intersect" /\ ~(Held("intersect") /\ conn = "live")
        \/ Stage = "tip" /\ (Room \/ work.ch # mine \/ FALSE \in due)
        \/ Stage = "range" /\ ~(Held("range") /\ conn = "live")
        \/ /\ Stage = "fetch" /\ ~Waits
           /\ \/ Stop /\ (work.cut \/ conn # "live")
              \/ work.todo = <<>> \/ Skips \/ work.ch # mine \/ Room

\* ---- the client
Begin == pulling = "no" /\ pulling' = "yes" /\ ans' = [a |-> "?", b |-> 0] /\ UNCHANGED <<node, serv, mine, buf>>
Take == /\ pulling # "no" /\ buf # <<>> /\ ans' = Head(buf) /\ buf' = Tail(buf) /\ pulling' = "no"
        /\ UNCHANGED <<node, serv, mine>>
\* nothing is on its way: everything after these positions is asked for
Renew(from) == /\ pulling = "yes" /\ buf = <<>> /\ ~Alive /\ Len(q) < 1
               /\ mine' = mine + 1 /\ q' = Append(q, [from |-> from, ch |-> mine']) /\ pulling' = "asked"
               /\ UNCHANGED <<node, conn, work, due, buf, ans>>
None == /\ pulling = "asked" /\ buf = <<>> /\ ~Alive /\ ans' = [a |-> "none", b |-> 0] /\ pulling' = "no"
        /\ UNCHANGED <<node, serv, mine, buf>>
GiveUp == /\ pulling # "no" /\ ans' = [a |-> "waiting", b |-> 0] /\ pulling' = "no" /\ UNCHANGED <<node, serv, mine, buf>>
Clear == /\ pulling = "no" /\ mine' = mine + 1 /\ buf' = (IF Variant = "keeps" THEN buf ELSE <<>>) /\ UNCHANGED <<node, serv, pulling, ans>>

\* ---- the node
Block(p) == /\ par' = Append(par, p) /\ cur' = Len(par) + 1 /\ UNCHANGED <<pace, held, up, bad, plan, serv, cli, buf, ans>>
Turn(b) == cur' = b /\ UNCHANGED <<pace, held, par, up, bad, plan, serv, cli, buf, ans>>
Schedule(x) == plan' = x /\ UNCHANGED <<pace, held, par, cur, up, bad, serv, cli, buf, ans>>
Release == /\ plan.act = "hold" /\ plan' = NoPlan /\ held' = FALSE /\ UNCHANGED <<pace, par, cur, up, bad, serv, cli, buf, ans>>
Lose(u) == /\ up' = u /\ conn' = (IF conn = "live" THEN "lost" ELSE conn) /\ held' = FALSE /\ plan' = (IF held \/ (Stage \in {"intersect", "range"} /\ Held(Stage)) THEN NoPlan ELSE plan) /\ UNCHANGED <<pace, par, cur, bad, q, work, due, cli, buf, ans>>
Back == ~up /\ up' = TRUE /\ UNCHANGED <<pace, held, par, cur, bad, plan, serv, cli, buf, ans>>
SInit == /\ up = TRUE /\ held = FALSE /\ plan = NoPlan /\ conn = "live" /\ q = <<>> /\ work = Idle /\ mine = 0 /\ buf = <<>> /\ pulling = "no" /\ ans = [a |-> "?", b |-> 0]
=============================================================================
