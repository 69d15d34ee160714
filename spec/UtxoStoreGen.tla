---------------------------- MODULE UtxoStoreGen ----------------------------
(* The design of the store: for every token a set of UTxOs, their total, and the UTxOs by quantity; a  *)
(* token nothing holds has no entry. Checked: it answers as the plain set of UTxOs does, and nothing   *)
(* changes a snapshot. Generates one history for every transition.                                     *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, TLC, Json
CONSTANTS Tab, Snaps, Muts, MaxOps, Variant, Emit
VARIABLES snap, mut, src, hist
vars == <<snap, mut, src, hist>>
\* the table, chosen by number: pointer, main amount, token amounts (0: does not hold it)
Table == CASE Tab = 1 -> <<[p |-> 1, v |-> 2, t |-> <<1, 0>>], [p |-> 1, v |-> 3, t |-> <<0, 2>>], [p |-> 2, v |-> 2, t |-> <<1, 2>>], [p |-> 3, v |-> 1, t |-> <<2, 0>>]>>
           [] Tab = 2 -> <<[p |-> 1, v |-> 1, t |-> <<1, 0>>], [p |-> 2, v |-> 1, t |-> <<1, 1>>]>>
U == 1..Len(Table)
P == {Table[u].p : u \in U}
Toks == 0..2
Q(u, k) == IF k = 0 THEN Table[u].v ELSE Table[u].t[k]
Holds(u, k) == k = 0 \/ Table[u].t[k] > 0
\* a store: token |-> [set, bal, ord: amount |-> set of UTxOs]
NoToken == [set |-> {}, bal |-> 0, ord |-> [q \in {} |-> {}]]
Empty == [k \in {} |-> NoToken]
Get(s, k) == IF k \in DOMAIN s THEN s[k] ELSE NoToken
Upd(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Del(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
AddTo(n, q, u) == [set |-> n.set \cup {u}, bal |-> n.bal + q,
                   ord |-> Upd(n.ord, q, IF q \in DOMAIN n.ord /\ Variant # "equal" THEN n.ord[q] \cup {u} ELSE {u})]
TakeFrom(n, q, u) == LET r == IF q \in DOMAIN n.ord THEN n.ord[q] \ {u} ELSE {} IN
                     [set |-> n.set \ {u}, bal |-> n.bal - q, ord |-> IF q \notin DOMAIN n.ord THEN n.ord ELSE IF r = {} THEN Del(n.ord, q) ELSE Upd(n.ord, q, r)]
Insert(s, u) == FoldSet(LAMBDA k, acc : IF Holds(u, k) THEN Upd(acc, k, AddTo(Get(acc, k), Q(u, k), u)) ELSE acc, s, Toks)
Remove(s, u) == FoldSet(LAMBDA k, acc : IF ~Holds(u, k) THEN acc
                        ELSE LET n == TakeFrom(Get(acc, k), Q(u, k), u) IN IF n.set = {} /\ Variant # "keep" THEN Del(acc, k) ELSE Upd(acc, k, n), s, Toks)
Content(s) == Get(s, 0).set
AtP(s, p) == {u \in Content(s) : Table[u].p = p}
Rec(o) == hist' = Append(hist, o) /\ (Emit => PrintT(<<"HIST", ToJson(hist')>>))
O(op, s, m, x) == [op |-> op, s |-> s, m |-> m, x |-> x]
GInit == snap = [s \in {"s0"} |-> Empty] /\ mut = [m \in {} |-> Empty] /\ src = [m \in {} |-> "s0"] /\ hist = <<>>
\* a design in which a thawed copy shares its structure with the snapshot
Change(m, new) == /\ mut' = Upd(mut, m, new)
                  /\ snap' = IF Variant = "alias" /\ src[m] \in DOMAIN snap THEN Upd(snap, src[m], new) ELSE snap
GNext == /\ Len(hist) < MaxOps
         /\ \/ \E s \in DOMAIN snap, m \in Muts : mut' = Upd(mut, m, snap[s]) /\ src' = Upd(src, m, s) /\ snap' = snap /\ Rec(O("thaw", s, m, 0))
            \/ \E m \in DOMAIN mut, s \in Snaps : snap' = Upd(snap, s, mut[m]) /\ mut' = Del(mut, m) /\ src' = Del(src, m) /\ Rec(O("freeze", s, m, 0))
            \/ \E s \in DOMAIN snap \ {"s0"} : snap' = Del(snap, s) /\ UNCHANGED <<mut, src>> /\ Rec(O("drop", s, "", 0))
            \/ \E m \in DOMAIN mut, u \in U :
                 /\ IF AtP(mut[m], Table[u].p) = {} THEN Change(m, Insert(mut[m], u)) ELSE UNCHANGED <<mut, snap>>
                 /\ src' = src /\ Rec(O("insert", "", m, u))
            \/ \E m \in DOMAIN mut, p \in P :
                 /\ IF AtP(mut[m], p) # {} THEN Change(m, Remove(mut[m], CHOOSE u \in AtP(mut[m], p) : TRUE)) ELSE UNCHANGED <<mut, snap>>
                 /\ src' = src /\ Rec(O("remove", "", m, p))
GSpec == GInit /\ [][GNext]_vars
GView == <<snap, mut, src>>
Sum(S, k) == FoldSet(LAMBDA u, acc : acc + Q(u, k), 0, S)
Good(s) == LET C == Content(s) IN \A k \in Toks :
  LET H == {u \in C : Holds(u, k)} n == Get(s, k) IN
  /\ n.set = H /\ n.bal = Sum(H, k) /\ (k \in DOMAIN s) = (H # {})
  /\ \A q \in DOMAIN n.ord : n.ord[q] # {} /\ n.ord[q] = {u \in H : Q(u, k) = q}
  /\ {Q(u, k) : u \in H} = DOMAIN n.ord
Consistent == (\A s \in DOMAIN snap : Good(snap[s])) /\ (\A m \in DOMAIN mut : Good(mut[m]))
\* only freezing into its name or dropping it changes what is behind the name of a snapshot
Immutable == [][\A s \in DOMAIN snap \cap DOMAIN snap' : snap'[s] # snap[s] => hist'[Len(hist')].op = "freeze" /\ hist'[Len(hist')].s = s]_vars
=============================================================================
