----------------------------- MODULE Multiverse -----------------------------
(* What a user of the multiverse sees: the variants present, the tree their parent links make, and     *)
(* what the store of each domain holds. A variant is a number; Par and Num say what its parent is (0:  *)
(* one that never exists) and what its block number is.                                                *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES tree,    \* variant -> [p, n]; never changes
          ms,      \* multiverse -> [dom, from, all, link]: link = variants whose parent link leads to a present variant
          stores   \* domain (store, name) -> the variants persisted in it
vars == <<ms, stores>>
Par(b) == tree[b].p
Num(b) == tree[b].n
Init == ms = << >> /\ stores = << >>

With(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Less(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
Store(dom) == IF dom \in DOMAIN stores THEN stores[dom] ELSE {}
Linked(s) == {b \in s : Par(b) \in s}

\* opening shows what the domain holds, as a tree
Open(m, dom, from, r) ==
  /\ m \notin DOMAIN ms /\ r = "ok"
  /\ ms' = With(ms, m, [dom |-> dom, from |-> from, all |-> Store(dom), link |-> Linked(Store(dom))])
  /\ stores' = With(stores, dom, Store(dom))
Drop(m, r) == /\ r = "ok" /\ ms' = Less(ms, m) /\ UNCHANGED stores

Persist(m, b) == IF Num(b) >= ms[m].from THEN stores' = [stores EXCEPT ![ms[m].dom] = @ \cup {b}] ELSE UNCHANGED stores

(* Children that were there before their parent: the domain of the properties excludes that (parents   *)
(* come first). Whether the links are made up for then is left open.                                   *)
Insert(m, b, r) ==
  /\ r = "ok"
  /\ IF b \in ms[m].all THEN UNCHANGED vars
     ELSE /\ LET kids == {c \in ms[m].all : Par(c) = b}
                 own == IF Par(b) \in ms[m].all THEN {b} ELSE {} IN
             \E more \in {{}, kids} :
               ms' = [ms EXCEPT ![m].all = @ \cup {b}, ![m].link = @ \cup own \cup more]
          /\ Persist(m, b)

Without(m, bs) == ms' = [ms EXCEPT ![m].all = @ \ bs, ![m].link = {c \in @ : c \notin bs /\ Par(c) \notin bs}]
Remove(m, b, r, v) ==
  IF b \in ms[m].all
  THEN /\ r = "ok" /\ v = b
       /\ Without(m, {b})
       /\ stores' = [stores EXCEPT ![ms[m].dom] = @ \ {b}]
  ELSE r = "none" /\ UNCHANGED vars

Clear(m, r) == /\ r = "ok" /\ ms' = [ms EXCEPT ![m].all = {}, ![m].link = {}] /\ stores' = [stores EXCEPT ![ms[m].dom] = {}]
Destroy(m, r) == /\ r = "ok" /\ ms' = Less(ms, m) /\ stores' = [stores EXCEPT ![ms[m].dom] = {}]

\* ---- questions
Tips(m) == ms[m].all \ {Par(c) : c \in ms[m].link}
Highest(s) == LET top == CHOOSE n \in {Num(b) : b \in s} : \A b \in s : Num(b) <= n IN {b \in s : Num(b) = top}
RECURSIVE Up(_, _, _)
Up(m, b, d) == IF d = 0 THEN b ELSE IF b \notin ms[m].link THEN 0 ELSE Up(m, Par(b), d - 1)
\* -1 stands for a number beyond all others
Selected(m, high, d, s) == IF high = {} THEN s = 0
                     ELSE \E t \in high : s = (IF d < 0 \/ d > Cardinality(ms[m].all) THEN 0 ELSE Up(m, t, d))
Discarded(m, g, s) == IF s = 0 \/ g < 0 THEN {} ELSE {b \in ms[m].all : Num(b) < Num(s) - g}
Range(s) == {s[i] : i \in 1..Len(s)}
Bag(s, set) == Range(s) = set /\ Len(s) = Cardinality(set)
Walk(m, s) == Bag(s, ms[m].all) /\ \A i \in 1..(Len(s) - 1) : Num(s[i]) <= Num(s[i + 1])

\* ask: which of the answers are judged
Judge(m, e, ask) ==
  /\ "has" \in ask => Bag(e.has, ms[m].all) /\ Bag(e.got, ms[m].all) /\ e.len = Cardinality(ms[m].all) /\ e.empty = (ms[m].all = {})
  /\ "tips" \in ask => Bag(e.tips, Tips(m))
  /\ "sel" \in ask => LET none == ms[m].all = {}
                          high == IF none THEN {} ELSE Highest(ms[m].all)
                          tips == IF none THEN {0} ELSE Highest(Tips(m)) IN
        \A i \in 1..Len(e.sel) : LET q == e.sel[i] IN
           Selected(m, high, q.d, q.s) /\ Bag(q.dis, Discarded(m, q.g, q.s)) /\ q.tip \in tips
  /\ "iter" \in ask => Walk(m, e.iter)
\* (= TRUE: TLC evaluates it as a value; as a part of the action it would branch at every choice)
Look(m, e, ask) == Judge(m, e, ask) = TRUE /\ UNCHANGED vars
\* removing everything a selection declares discarded
Gc(m, d, g, e) ==
  /\ Selected(m, IF ms[m].all = {} THEN {} ELSE Highest(ms[m].all), d, e.sel) = TRUE /\ Bag(e.dis, Discarded(m, g, e.sel))
  /\ Without(m, Range(e.dis))
  /\ stores' = [stores EXCEPT ![ms[m].dom] = @ \ Range(e.dis)]
=============================================================================
