---------------------------- MODULE SourceTrace ----------------------------
(* What a source over a node answered: the confirming source (B02) and the fork-handling source (B03). *)
EXTENDS Upstream, TLC, Json, IOUtils
VARIABLES tr, i, all, sent, chain, newest, nums, best
Traces == ndJsonDeserialize(IOEnv.TRACES)
T == Traces[tr]
Ev == T.ev
\* what the node gave during a pull
Gave(e) == {e.inner[j].b : j \in {j \in 1..Len(e.inner) : e.inner[j].ans = "block"}}
Said(e, a) == \E j \in 1..Len(e.inner) : e.inner[j].ans = a
\* the block with Depth blocks on top of it, in the best chain received
RECURSIVE Up(_, _)
Up(b, n) == IF n = 0 \/ b = 0 THEN b ELSE Up(par[b], n - 1)
RECURSIVE Highest(_, _)
Highest(S, h) == IF S = {} THEN h ELSE LET b == CHOOSE b \in S : TRUE IN Highest(S \ {b}, IF h = 0 \/ nums[b] > nums[h] THEN b ELSE h)
Confirmed(S) == Up(Highest(S, best), T.depth)     \* of the blocks so far and S
ConfirmedPull(e) ==
  LET now == Confirmed(Gave(e)) IN
  IF e.from # sent THEN e.ans = "block" /\ e.b = sent
  ELSE IF Said(e, "err") THEN e.ans = "err"
  ELSE IF Said(e, "tip") THEN e.ans = "tip"
  ELSE IF now # sent THEN e.ans = "block" /\ e.b = now /\ par[now] = sent
  ELSE e.ans = "none"
Top(c) == IF c = <<>> THEN 0 ELSE c[Len(c)]
\* the newest block there is that was not there before
Fresh(e) == LET n == Gave(e) \ all IN IF n = {} THEN newest ELSE CHOOSE b \in n : TRUE
ChainAfter(e) == CASE e.ans = "block" -> Append(chain, e.b)
                   [] e.ans = "back" -> SelectSeq(chain, LAMBDA b : nums[b] <= (IF e.b = 0 THEN 0 ELSE nums[e.b]))
                   [] OTHER -> chain
ForkPull(e) ==
  CASE e.ans = "block" -> e.b \in all \cup Gave(e) /\ par[e.b] = Top(chain)
    [] e.ans = "back" -> e.b = 0 \/ (e.b > 0 /\ e.b \in ToSet(chain))
    [] e.ans = "none" -> chain = Path(Fresh(e)) /\ ~Said(e, "tip") /\ ~Said(e, "err")
    [] e.ans = "tip" -> Said(e, "tip")
    [] e.ans = "err" -> Said(e, "err")
    [] OTHER -> FALSE
Judge(e) ==
  CASE e.op = "pull" -> IF T.kind = "confirmed" THEN ConfirmedPull(e) ELSE ForkPull(e)
    [] e.op = "restart" -> TRUE
    [] e.op = "end" -> /\ e.quiet
                       /\ T.live => ToSet(e.path) \subseteq all
                       /\ IF T.kind = "confirmed" THEN sent = Confirmed({}) ELSE chain = Path(newest)
RECURSIVE Heights(_, _)
Heights(p, hs) == IF Len(hs) = Len(p) THEN hs ELSE LET k == p[Len(hs) + 1] IN Heights(p, Append(hs, IF k = 0 THEN 1 ELSE 1 + hs[k]))
TInit == /\ tr \in 1..Len(Traces) /\ i = 1 /\ par = T.par /\ cur = 0 /\ stream = <<>> /\ all = {} /\ sent = 0 /\ chain = <<>> /\ newest = 0 /\ best = 0
         /\ nums = Heights(T.par, <<>>)
TNext == /\ i <= Len(Ev) /\ Judge(Ev[i]) = TRUE
         /\ LET e == Ev[i] IN
            IF e.op = "pull"
            THEN /\ all' = all \cup Gave(e) /\ newest' = Fresh(e) /\ best' = Highest(Gave(e), best)
                 /\ sent' = (IF T.kind = "confirmed" /\ e.ans = "block" THEN e.b ELSE sent)
                 /\ chain' = (IF T.kind = "fork" THEN ChainAfter(e) ELSE chain)
            ELSE UNCHANGED <<all, sent, chain, newest, best>>
         /\ i' = i + 1 /\ UNCHANGED <<tr, par, cur, stream, nums>>
         /\ (i' > Len(Ev) => PrintT(<<"ACCEPT", tr>>))
         /\ (Len(Traces) = 1 => PrintT(<<"AT", i>>))
TSpec == TInit /\ [][TNext]_<<tr, i, par, cur, stream, all, sent, chain, newest, nums, best>>
TView == <<tr, i>>
=============================================================================
