------------------------------ MODULE UtxoStore ------------------------------
(* The UTxO store (C01, C02). A snapshot or a thawed copy is a set of UTxOs (numbers of a table).      *)
(* `ver` says which version of the contents it is: copying, thawing and freezing keep it, a successful *)
(* insertion or removal makes a new one. What a version answers never changes.                         *)
EXTENDS Dec, FiniteSets
VARIABLES
  tab,    \* tab[u] = [p |-> pointer, v |-> main amount, t |-> <<[k |-> token, q |-> amount]>>]
  snap,   \* snapshot |-> [c |-> set of UTxOs, ver |-> version]
  mut,    \* thawed copy |-> the same
  seen    \* <<version, kind of question>> |-> the answers it gave
svars == <<tab, snap, mut, seen>>
SInit(t) == /\ tab = t /\ snap = [s \in {"s0"} |-> [c |-> {}, ver |-> 0]] /\ mut = [m \in {} |-> [c |-> {}, ver |-> 0]]
            /\ seen = [k \in {} |-> ""]
Drop(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
At0(c, p) == {u \in c : tab[u].p = p}

\* what a set of UTxOs answers about token k (1 is the main token, 2 is token number 1 of the table)
Amounts(u, k) == IF k = 1 THEN <<tab[u].v>> ELSE FoldLeft(LAMBDA acc, a : IF a.k = k - 1 THEN Append(acc, a.q) ELSE acc, <<>>, tab[u].t)
Holders(c, k) == {u \in c : Amounts(u, k) # <<>>}
Qty(u, k) == Amounts(u, k)[1]
Total(c, k) == FoldSet(LAMBDA u, acc : DAdd(acc, Qty(u, k)), DZero, Holders(c, k))
SeqIs(s, S) == Len(s) = Cardinality(S) /\ {s[i] : i \in 1..Len(s)} = S
Up(s, k) == \A i \in 1..(Len(s) - 1) : ~DLess(Qty(s[i + 1], k), Qty(s[i], k))
Down(s, k) == \A i \in 1..(Len(s) - 1) : ~DLess(Qty(s[i], k), Qty(s[i + 1], k))
Bal(b, c, k) == IF Holders(c, k) = {} THEN b = <<>> \/ (k = 1 /\ Len(b) = 1 /\ DEq(b[1], DZero))
                ELSE Len(b) = 1 /\ DEq(b[1], Total(c, k))
Token(a, c, k) == LET H == Holders(c, k) IN
  /\ a.n = Cardinality(H) /\ SeqIs(a.iter, H)
  /\ (k # 1 => a.has = (H # {}))
  /\ SeqIs(a.up, H) /\ Up(a.up, k) /\ SeqIs(a.down, H) /\ Down(a.down, k)
  /\ Bal(a.bal, c, k)
  /\ (H # {} => (k = 1 \/ a.ids = "right"))
Answers(a, c) ==
  /\ a.len = Cardinality(c) /\ a.empty = (c = {})
  /\ SeqIs(a.has, {tab[u].p : u \in c}) /\ SeqIs(a.get, c) /\ SeqIs(a.iter, c)
  /\ SeqIs(a.main, c) /\ Up(a.main, 1)
  /\ \A k \in 1..Len(a.tok) : Token(a.tok[k], c, k)
AnswersMut(a, c) == DEq(a.bal, Total(c, 1)) /\ \A k \in 1..Len(a.tok) : Bal(a.tok[k], c, k)

\* judge: "answers" (C01) or "versions" (C02); new: a fresh version number
Same(e, v) == LET key == <<v, e.op>> IN IF key \in DOMAIN seen THEN seen[key] = e.digest ELSE TRUE
Remember(e, v) == seen' = Put(seen, <<v, e.op>>, e.digest)
Do(e, judge, new) ==
  CASE e.op = "thaw" -> e.k = "ok" /\ mut' = Put(mut, e.m, snap[e.s]) /\ UNCHANGED <<tab, snap, seen>>
    [] e.op = "freeze" -> e.k = "ok" /\ snap' = Put(snap, e.s, mut[e.m]) /\ mut' = Drop(mut, e.m) /\ UNCHANGED <<tab, seen>>
    [] e.op = "clone" -> e.k = "ok" /\ snap' = Put(snap, e.to, snap[e.s]) /\ UNCHANGED <<tab, mut, seen>>
    [] e.op = "drop" -> e.k = "ok" /\ snap' = Drop(snap, e.s) /\ UNCHANGED <<tab, mut, seen>>
    [] e.op = "insert" -> LET c == mut[e.m].c IN
         IF At0(c, tab[e.u].p) = {} THEN e.k = "ok" /\ mut' = Put(mut, e.m, [c |-> c \cup {e.u}, ver |-> new]) /\ UNCHANGED <<tab, snap, seen>>
         ELSE e.k = "err" /\ UNCHANGED svars
    [] e.op = "remove" -> LET c == mut[e.m].c IN
         IF At0(c, e.p) # {} THEN e.k = "ok" /\ mut' = Put(mut, e.m, [c |-> c \ At0(c, e.p), ver |-> new]) /\ UNCHANGED <<tab, snap, seen>>
         ELSE e.k = "err" /\ UNCHANGED svars
    [] e.op = "look" -> /\ e.k = "ok"
         /\ (IF judge = "answers" THEN Answers(e.a, snap[e.s].c) ELSE Same(e, snap[e.s].ver)) = TRUE
         /\ Remember(e, snap[e.s].ver) /\ UNCHANGED <<tab, snap, mut>>
    [] e.op = "lookm" -> /\ e.k = "ok"
         /\ (IF judge = "answers" THEN AnswersMut(e.a, mut[e.m].c) ELSE Same(e, mut[e.m].ver)) = TRUE
         /\ Remember(e, mut[e.m].ver) /\ UNCHANGED <<tab, snap, mut>>
=============================================================================
