------------------------------ MODULE Upstream ------------------------------
(* A node that has a best chain and moves to others, and serves ranges of its chain: a request names    *)
(* known blocks; the node finds the highest of them on its chain and then serves what comes after it,   *)
(* from the chain as it was when it was asked. Block 0 is the position everything starts from.          *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt
VARIABLES par,     \* par[b]: parent of block b; blocks are numbered as they appear
          cur,     \* the node's tip
          stream   \* what is still to be served
Blocks == 1..Len(par)
RECURSIVE NumOf(_, _), PathOf(_, _)
NumOf(p, b) == IF b = 0 THEN 0 ELSE 1 + NumOf(p, p[b])
PathOf(p, b) == IF b = 0 THEN <<>> ELSE Append(PathOf(p, p[b]), b)
Num(b) == NumOf(par, b)
Path(b) == PathOf(par, b)     \* from the start to b, without the start
MaxNum(S) == IF S = {} THEN 0 ELSE CHOOSE n \in {Num(b) : b \in S} : \A b \in S : Num(b) <= n
Best(S) == {b \in S : Num(b) = MaxNum(S)}
Anc(b, n) == IF Num(b) <= n THEN 0 ELSE Path(b)[Num(b) - n]     \* n steps below b, 0 if that is the start or beyond
\* p is on or above what lies d steps below every best tip: a fork there is no deeper than d
Within(p, d) == \A b \in Best(Blocks) : LET c == Anc(b, d) IN c = 0 \/ c \in ToSet(Path(p))
\* what a request brings
After(from) ==
  LET P == Path(cur) known == {i \in 1..Len(P) : P[i] \in from}
  IN  IF from = {} \/ 0 \in from \/ known # {} THEN SubSeq(P, (IF known = {} THEN 0 ELSE CHOOSE i \in known : \A j \in known : j <= i) + 1, Len(P)) ELSE <<>>
=============================================================================
