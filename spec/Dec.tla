-------------------------------- MODULE Dec --------------------------------
(* Exact decimal numbers of any size. TLC's integers have 32 bits, so a natural number is a sequence   *)
(* of limbs, DPL decimal digits each, the least significant first and without zeros at the end. A      *)
(* number is [g, m, s]: sign -1, 0 or 1, the natural m, and s, how many of its digits are behind the   *)
(* point (negative: zeros to append). DecMC checks this arithmetic against the integers.               *)
EXTENDS Integers, Sequences, SequencesExt
CONSTANT DPL
RECURSIVE Pow10(_)
Pow10(k) == IF k = 0 THEN 1 ELSE 10 * Pow10(k - 1)
P10 == <<10, 100, 1000, 10000>>
Ten(k) == IF k = 0 THEN 1 ELSE P10[k]
BASE == Ten(DPL)
Max2(a, b) == IF a > b THEN a ELSE b

\* naturals
Limb(a, i) == IF i <= Len(a) THEN a[i] ELSE 0
Top(a) == CHOOSE n \in 0..Len(a) : (n = 0 \/ a[n] # 0) /\ \A i \in (n + 1)..Len(a) : a[i] = 0
NTrim(a) == SubSeq(a, 1, Top(a))
\* limbs that may be too large, or negative (then the number itself is not)
NCarry(a) ==
  LET r == FoldLeft(LAMBDA acc, x : LET y == x + acc.c IN [c |-> y \div BASE, o |-> Append(acc.o, y % BASE)], [c |-> 0, o |-> <<>>], a)
      RECURSIVE Out(_)
      Out(c) == IF c = 0 THEN <<>> ELSE <<c % BASE>> \o Out(c \div BASE)
  IN NTrim(r.o \o Out(r.c))
NAdd(a, b) == NCarry([i \in 1..Max2(Len(a), Len(b)) |-> Limb(a, i) + Limb(b, i)])
NSub(a, b) == NCarry([i \in 1..Max2(Len(a), Len(b)) |-> Limb(a, i) - Limb(b, i)])   \* a >= b
NLess(a, b) == \/ Len(a) < Len(b)
               \/ Len(a) = Len(b) /\ \E i \in 1..Len(a) : a[i] < b[i] /\ \A j \in (i + 1)..Len(a) : a[j] = b[j]
NMul(a, b) ==
  IF a = <<>> \/ b = <<>> THEN <<>>
  ELSE NCarry([k \in 1..(Len(a) + Len(b) - 1) |->
         FoldLeftDomain(LAMBDA acc, i : acc + (IF k + 1 - i \in 1..Len(b) THEN a[i] * b[k + 1 - i] ELSE 0), 0, a)])
NShift(a, k) ==   \* times 10^k
  IF a = <<>> THEN a ELSE [i \in 1..(k \div DPL) |-> 0] \o NCarry([i \in 1..Len(a) |-> a[i] * Ten(k % DPL)])
NDown(a, k) ==    \* divided by 10^k, rounded down
  LET b == SubSeq(a, k \div DPL + 1, Len(a)) d == Ten(k % DPL)
  IN NTrim([i \in 1..Len(b) |-> (b[i] \div d) + (Limb(b, i + 1) % d) * (BASE \div d)])
NOf(n) == IF n = 0 THEN <<>> ELSE NCarry(<<n>>)

\* numbers
Mk(g, m, s) == [g |-> IF m = <<>> THEN 0 ELSE g, m |-> m, s |-> s]
DZero == Mk(0, <<>>, 0)
DNat(m) == Mk(1, m, 0)
\* the natural number x.m * 10^(s - x.s), for s >= x.s
At(x, s) == NShift(x.m, s - x.s)
DAdd(x, y) ==
  LET s == Max2(x.s, y.s) a == At(x, s) b == At(y, s)
  IN IF x.g = 0 THEN Mk(y.g, b, s) ELSE IF y.g = 0 THEN Mk(x.g, a, s)
     ELSE IF x.g = y.g THEN Mk(x.g, NAdd(a, b), s)
     ELSE IF NLess(a, b) THEN Mk(y.g, NSub(b, a), s) ELSE Mk(x.g, NSub(a, b), s)
DNeg(x) == [x EXCEPT !.g = -@]
DSub(x, y) == DAdd(x, DNeg(y))
DMul(x, y) == Mk(x.g * y.g, NMul(x.m, y.m), x.s + y.s)
DScale(x, k) == [x EXCEPT !.s = x.s - k]   \* times 10^k
DLess(x, y) ==
  IF x.g # y.g THEN x.g < y.g
  ELSE IF x.g = 0 THEN FALSE
  ELSE LET s == Max2(x.s, y.s) IN IF x.g = 1 THEN NLess(At(x, s), At(y, s)) ELSE NLess(At(y, s), At(x, s))
DEq(x, y) == x.g = y.g /\ (x.g = 0 \/ LET s == Max2(x.s, y.s) IN At(x, s) = At(y, s))
\* the integral part of a number that is not negative
DFloor(x) == IF x.s <= 0 THEN x ELSE Mk(x.g, NDown(x.m, x.s), 0)
DInt(x) == x.g = 0 \/ DEq(x, DFloor(x))
DSum(xs) == FoldLeft(DAdd, DZero, xs)
=============================================================================
