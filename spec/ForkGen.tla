------------------------------- MODULE ForkGen -------------------------------
(* A source that forwards every block at once and tells its consumer to go back when the next block is  *)
(* on another branch, over a node whose forks are never deeper than Depth. What has to be told before   *)
(* the next block is queued. The consumer's chain is what the events make of it.                        *)
EXTENDS Upstream, TLC, Json
CONSTANTS Depth, MaxBlocks, Variant, Emit, FromStart
VARIABLES got, last, all, queue, chain, bad, hist
vars == <<par, cur, stream, got, last, all, queue, chain, bad, hist>>
GInit == /\ par = <<>> /\ cur = 0 /\ stream = <<>> /\ got = {} /\ last = 0 /\ all = {} /\ queue = <<>> /\ chain = <<>> /\ bad = FALSE /\ hist = <<>>
Rec(o) == hist' = Append(hist, o) /\ (Emit => PrintT(<<"HIST", ToJson(hist')>>))
Grow == /\ Len(par) < MaxBlocks
        /\ \E p \in {0} \cup Blocks : Within(p, Depth) /\ par' = Append(par, p) /\ cur' = Len(par) + 1 /\ Rec([op |-> "block", p |-> p])
        /\ UNCHANGED <<stream, got, last, all, queue, chain, bad>>
Turn == /\ \E b \in Blocks \ {cur} : Within(b, Depth) /\ Num(b) >= Num(cur) /\ cur' = b /\ Rec([op |-> "turn", b |-> b])
        /\ UNCHANGED <<par, stream, got, last, all, queue, chain, bad>>
Tips(S) == {b \in S : \A c \in S : par[c] # b}
Sel(S) == IF S = {} THEN 0 ELSE Anc(CHOOSE b \in Best(S) : TRUE, Depth)
Gc(S) == LET s == Sel(S) IN IF s = 0 THEN S ELSE {b \in S : Num(b) >= Num(s) - 1}
From == {IF FromStart \/ chain = <<>> THEN 0 ELSE chain[Len(chain)]}
App(b) == [k |-> "block", b |-> b]
Back(b) == [k |-> "back", b |-> b]
Common(a, b) == LET P == Path(a) I == {i \in 1..Len(P) : P[i] \in ToSet(Path(b))} IN IF I = {} THEN 0 ELSE P[CHOOSE i \in I : \A j \in I : j <= i]
\* what has to be told when block b follows block l
Told(l, b) ==
  IF l = 0 THEN <<Back(0), App(b)>>
  ELSE IF par[b] = l \/ Variant = "blind" THEN <<App(b)>>
  ELSE LET c == Common(l, b) r == SelectSeq(Path(b), LAMBDA x : Num(x) > Num(c)) IN
       <<Back(c)>> \o [i \in DOMAIN r |-> App(r[IF Variant = "reverse" THEN Len(r) + 1 - i ELSE i])]
Apply(e) ==
  IF e.k = "block" THEN /\ chain' = Append(chain, e.b) /\ bad' = (bad \/ par[e.b] # (IF chain = <<>> THEN 0 ELSE chain[Len(chain)]))
  ELSE /\ bad' = (bad \/ (e.b # 0 /\ e.b \notin ToSet(chain)))
       /\ chain' = IF e.b = 0 THEN <<>> ELSE SelectSeq(chain, LAMBDA x : Num(x) <= Num(e.b))
Pull ==
  /\ IF queue # <<>> THEN Apply(queue[1]) /\ queue' = Tail(queue) /\ UNCHANGED <<stream, got, last, all>>
     ELSE LET s == IF stream # <<>> THEN stream ELSE After(Tips(got) \cup From \cup (IF Sel(got) = 0 \/ Variant = "tips" THEN {} ELSE {Sel(got)})) IN
          IF s = <<>> THEN UNCHANGED <<stream, got, last, all, queue, chain, bad>>
          ELSE /\ stream' = Tail(s)
               /\ IF s[1] \in got THEN UNCHANGED <<got, last, all, queue, chain, bad>>
                  ELSE LET t == Told(IF Variant = "highest" /\ got # {} THEN CHOOSE b \in Best(got) : TRUE ELSE last, s[1]) IN
                       /\ got' = Gc(got \cup {s[1]}) /\ all' = all \cup {s[1]} /\ last' = s[1] /\ Apply(t[1]) /\ queue' = Tail(t)
  /\ Rec([op |-> "pull"]) /\ UNCHANGED <<par, cur>>
GNext == Grow \/ Turn \/ Pull
GSpec == GInit /\ [][GNext]_vars
GView == <<par, cur, stream, got, last, all, queue, chain, bad>>
Leads == ~bad /\ \A i \in 1..Len(chain) : par[chain[i]] = IF i = 1 THEN 0 ELSE chain[i - 1]
Arrives == queue = <<>> => chain = Path(last)
\* the node has no new blocks for it: it has them all. (Before anything is confirmed only the start helps
\* against a fork.)
NotStuck == (stream = <<>> /\ queue = <<>> /\ (FromStart \/ Sel(got) # 0) /\ ~(ToSet(Path(cur)) \subseteq all)) => After(Tips(got) \cup From \cup (IF Sel(got) = 0 \/ Variant = "tips" THEN {} ELSE {Sel(got)})) # <<>>
=============================================================================
