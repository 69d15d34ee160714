------------------------------- MODULE DecMC -------------------------------
(* The arithmetic of Dec is that of the integers: for all numbers -N/100 .. N/100.                      *)
EXTENDS Dec, TLC
CONSTANT N
VARIABLE x, y, s, t
Num(v, k) == Mk(IF v < 0 THEN -1 ELSE IF v > 0 THEN 1 ELSE 0, NOf(IF v < 0 THEN -v ELSE v), k)
RECURSIVE NVal(_)
NVal(a) == IF a = <<>> THEN 0 ELSE Head(a) + BASE * NVal(Tail(a))
\* a hundredth of a number as an integer
Val(d) == d.g * NVal(NShift(d.m, 4 - d.s))
Of(v, k) == v * (CASE k = 0 -> 10000 [] k = 1 -> 1000 [] k = 2 -> 100 [] k = -1 -> 100000)
Init == x \in -N..N /\ y \in -N..N /\ s \in {-1, 0, 2} /\ t \in {0, 1}
Next == UNCHANGED <<x, y, s, t>>
Ok ==
  LET a == Num(x, s) b == Num(y, t) IN
  /\ NVal(NOf(N + x)) = N + x
  /\ Val(a) = Of(x, s)
  /\ Val(DAdd(a, b)) = Of(x, s) + Of(y, t)
  /\ Val(DSub(a, b)) = Of(x, s) - Of(y, t)
  /\ DMul(a, b).g * NVal(DMul(a, b).m) = x * y /\ DMul(a, b).s = s + t
  /\ DLess(a, b) = (Of(x, s) < Of(y, t))
  /\ DEq(a, b) = (Of(x, s) = Of(y, t))
  /\ (x >= 0 => Val(DFloor(a)) = (Of(x, s) \div 10000) * 10000)
  /\ (x >= 0 => DInt(a) = (Of(x, s) % 10000 = 0))
  /\ (x >= 0 => NVal(NDown(a.m, 1)) = x \div 10 /\ NVal(NDown(a.m, 2)) = x \div 100)
  /\ DEq(DScale(DScale(a, 3), -3), a)
  /\ Val(DSum(<<a, b, a>>)) = 2 * Of(x, s) + Of(y, t)
=============================================================================
