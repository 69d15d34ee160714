---------------------------- MODULE ConfirmedGen ----------------------------
(* A source that only releases blocks with Depth blocks on top of them, over a node whose forks are     *)
(* never deeper than that. The client pulls from the block it has processed last, may ask again before   *)
(* it has processed an answer, and everything may be stopped and started again.                          *)
EXTENDS Upstream, TLC, Json
CONSTANTS Depth, MaxBlocks, MaxRestarts, MaxRepeats, Variant, Emit
VARIABLES got, conf, sent, acked, ans, restarts, repeats, hist
vars == <<par, cur, stream, got, conf, sent, acked, ans, restarts, repeats, hist>>
GInit == /\ par = <<>> /\ cur = 0 /\ stream = <<>> /\ got = {} /\ conf = 0 /\ sent = <<>> /\ acked = 0 /\ ans = 0 /\ restarts = 0 /\ repeats = 0 /\ hist = <<>>
Rec(o) == hist' = Append(hist, o) /\ (Emit => PrintT(<<"HIST", ToJson(hist')>>))
\* the node's chain gets longer, or becomes another one
Grow == /\ Len(par) < MaxBlocks
        /\ \E p \in {0} \cup Blocks : /\ Within(p, Depth)
                                      /\ par' = Append(par, p) /\ cur' = Len(par) + 1
                                      /\ Rec([op |-> "block", p |-> p])
        /\ UNCHANGED <<stream, got, conf, sent, acked, ans, restarts, repeats>>
\* or an older one again
Turn == /\ \E b \in Blocks \ {cur} : /\ Within(b, Depth) /\ Num(b) >= Num(cur) /\ cur' = b /\ Rec([op |-> "turn", b |-> b])
        /\ UNCHANGED <<par, stream, got, conf, sent, acked, ans, restarts, repeats>>
Tips(S) == {b \in S : \A c \in S : par[c] # b}
Sel(S) == IF S = {} THEN 0 ELSE LET t == CHOOSE b \in Best(S) : TRUE IN Anc(t, IF Variant = "shallow" THEN Depth - 1 ELSE Depth)
Gc(S, s) == IF s = 0 THEN S ELSE {b \in S : Num(b) >= Num(s) - 1}
ParentPoint(c) == IF par[c] \in got THEN par[c] ELSE -1
\* the parent is not known only when it is the start
Again == /\ conf # 0 /\ (acked = ParentPoint(conf) \/ (Variant # "strict" /\ ParentPoint(conf) = -1 /\ acked # conf))
Pull ==
  /\ IF Again THEN /\ repeats < MaxRepeats /\ repeats' = repeats + 1 /\ ans' = conf /\ UNCHANGED <<stream, got, conf>>
     ELSE IF conf # 0 /\ acked # conf THEN ans' = -1 /\ UNCHANGED <<stream, got, conf, repeats>>
     ELSE LET s == IF stream # <<>> THEN stream ELSE After(IF Variant = "tipsonly" /\ got # {} THEN Tips(got) ELSE Tips(got) \cup {acked}) IN
          IF s = <<>> THEN ans' = 0 /\ stream' = s /\ UNCHANGED <<got, conf, repeats>>
          ELSE /\ stream' = Tail(s) /\ repeats' = repeats
               /\ IF s[1] \in got THEN ans' = 0 /\ UNCHANGED <<got, conf>>
                  ELSE LET g == got \cup {s[1]} x == Sel(g) IN
                       /\ got' = Gc(g, x)
                       /\ IF x = 0 \/ x = conf THEN ans' = 0 /\ UNCHANGED conf ELSE ans' = x /\ conf' = x
  /\ sent' = (IF ans' > 0 /\ (sent = <<>> \/ sent[Len(sent)] # ans') THEN Append(sent, ans') ELSE sent)
  /\ Rec([op |-> "pull"]) /\ UNCHANGED <<par, cur, acked, restarts>>
Ack == /\ sent # <<>> /\ acked # sent[Len(sent)] /\ acked' = sent[Len(sent)] /\ ans' = 0 /\ Rec([op |-> "ack"])
       /\ UNCHANGED <<par, cur, stream, got, conf, sent, restarts, repeats>>
Restart == /\ restarts < MaxRestarts /\ restarts' = restarts + 1 /\ stream' = <<>> /\ ans' = 0
           /\ conf' = (IF Variant = "forgets" THEN 0 ELSE Sel(got)) /\ Rec([op |-> "restart"])
           /\ UNCHANGED <<par, cur, got, sent, acked, repeats>>
GNext == Grow \/ Turn \/ Pull \/ Ack \/ Restart
GSpec == GInit /\ [][GNext]_vars
GView == <<par, cur, stream, got, conf, sent, acked, ans, restarts, repeats>>
Chain == \A i \in 1..Len(sent) : par[sent[i]] = IF i = 1 THEN 0 ELSE sent[i - 1]
Deep == sent # <<>> => \E b \in Blocks : Num(b) >= Num(sent[Len(sent)]) + Depth /\ Anc(b, Num(b) - Num(sent[Len(sent)])) = sent[Len(sent)]
Answers == ans # -1 /\ (sent # <<>> /\ acked # sent[Len(sent)] /\ ans > 0 => ans = sent[Len(sent)])
\* whatever is confirmed has been released, and the node has nothing left once it has nothing to serve
Complete == Sel(got) # 0 => sent # <<>> /\ sent[Len(sent)] = Sel(got)
CaughtUp == (stream = <<>> /\ (sent = <<>> \/ acked = sent[Len(sent)]) /\ After(Tips(got) \cup {acked}) = <<>>) => \A b \in ToSet(Path(cur)) : b \in got \/ Num(b) < MaxNum(got)
\* a client that goes on can always get further
NotStuck == (stream = <<>> /\ (sent = <<>> \/ acked = sent[Len(sent)]) /\ ~(ToSet(Path(cur)) \subseteq got \cup ToSet(sent))) =>
              After(IF Variant = "tipsonly" /\ got # {} THEN Tips(got) ELSE Tips(got) \cup {acked}) # <<>>
=============================================================================
