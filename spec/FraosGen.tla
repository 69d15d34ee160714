------------------------------ MODULE FraosGen ------------------------------
(* Histories for the real code, one for every transition between two layouts of the files and maps  *)
(* (how full the chunks are, what was merged, what failed) that FraosStore can make.                 *)
EXTENDS FraosStore, TLC, Json
VARIABLE hist
G1 == {<<1>>, <<3>>, <<2, 3>>, <<1, 1, 1>>, <<5>>}
G2 == {<<1>>, <<4>>, <<1, 1>>}
Rec(r) == Append(hist, r)
Note == step' = 0 => PrintT(<<"HIST", ToJson(hist')>>)
GInit == Init /\ hist = << >>
GNext ==
  \/ \E x \in Batches : Begin(x) /\ hist' = Rec([op |-> "append", b |-> x, at |-> "none", n |-> 0])
  \/ (Map \/ Write \/ Flush \/ Merge(TRUE) \/ Publish) /\ hist' = hist
  \/ Ack /\ hist' = hist /\ Note
  \/ LET c == Cur
         \* which call of its kind it is within the append
         n == IF c = "iflush" \/ (c = "imap" /\ m.d.act[1].start = base) THEN 2 ELSE 1
     IN (MapFails \/ FlushFails) /\ hist' = [hist EXCEPT ![Len(hist)].at = c, ![Len(hist)].n = n] /\ Note
  \/ Clone /\ hist' = Rec([op |-> "clone", b |-> << >>, at |-> "none", n |-> 0])
  \/ Drop /\ hist' = Rec([op |-> "drop", b |-> << >>, at |-> "none", n |-> 0]) /\ Note
  \/ Open /\ hist' = Rec([op |-> "open", b |-> << >>, at |-> "none", n |-> 0]) /\ Note
GSpec == GInit /\ [][GNext]_<<vars, hist>>
Shape(x) == <<Len(f[x]), [k \in 1..Len(m[x].inact) |-> End(m[x].inact[k])], m[x].act, m[x].size>>
GView == <<Shape("d"), Shape("i"), up, step, w, cnt.fault, [k \in 1..Len(b) |-> b[k].l], Len(acked)>>
=============================================================================
