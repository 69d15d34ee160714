------------------------------- MODULE Values -------------------------------
(* Amounts in eight units (C04): registers hold a unit and the exact number. Operations of the library *)
(* have to give what exact decimal arithmetic gives.                                                   *)
EXTENDS Dec
VARIABLE reg   \* registers: [u |-> unit, x |-> number]
\* the digits behind the point a unit has
Places(u) == CASE u \in {"normalized", "regulated", "ether"} -> 18 [] u \in {"ada", "algo"} -> 6 [] OTHER -> 0

------------------------------------------------------------------------------
\* reading a text (character codes)
IsDigit(c) == c \in 48..57
RECURSIVE Nat10(_)
\* the natural number of a sequence of digits: four digits make a limb
Nat10(t) == IF t = <<>> THEN <<>>
            ELSE LET n == Len(t) k == IF n < DPL THEN n ELSE DPL
                     l == FoldLeft(LAMBDA acc, c : acc * 10 + (c - 48), 0, SubSeq(t, n - k + 1, n))
                 IN <<l>> \o Nat10(SubSeq(t, 1, n - k))
Point(t) == IF \E i \in 1..Len(t) : t[i] = 46 THEN CHOOSE i \in 1..Len(t) : t[i] = 46 /\ \A j \in 1..(i - 1) : t[j] # 46 ELSE 0
AllDigits(t) == \A i \in 1..Len(t) : IsDigit(t[i])
\* digits, or digits, a point and digits: [int, frac] or nothing
Split(t) == LET p == Point(t) IN IF p = 0 THEN [a |-> t, f |-> <<>>] ELSE [a |-> SubSeq(t, 1, p - 1), f |-> SubSeq(t, p + 1, Len(t))]
Plain(t) == LET s == Split(t) IN t # <<>> /\ s.a # <<>> /\ AllDigits(s.a) /\ AllDigits(s.f) /\ (Point(t) # 0 => s.f # <<>>)
NumOf(t) == LET s == Split(t) IN Mk(1, NTrim(Nat10(s.a \o s.f)), Len(s.f))
\* no more fractional digits than the unit has, apart from zeros
Within(u, x) == DInt(DScale([x EXCEPT !.g = IF @ = 0 THEN 0 ELSE 1], Places(u)))
\* other ways to write a decimal number: a sign, nothing before or behind the point, an exponent
ExpAt(t) == IF \E i \in 1..Len(t) : t[i] \in {69, 101} THEN CHOOSE i \in 1..Len(t) : t[i] \in {69, 101} ELSE 0
Mant(t) == IF ExpAt(t) = 0 THEN t ELSE SubSeq(t, 1, ExpAt(t) - 1)
ExpT(t) == IF ExpAt(t) = 0 THEN <<48>> ELSE SubSeq(t, ExpAt(t) + 1, Len(t))
Signed(t) == t # <<>> /\ t[1] \in {43, 45}
Abs(t) == IF Signed(t) THEN Tail(t) ELSE t
Neg(t) == t # <<>> /\ t[1] = 45
LooseMant(t) == LET s == Split(t) IN AllDigits(s.a) /\ AllDigits(s.f) /\ s.a \o s.f # <<>>
Small(t) == FoldLeft(LAMBDA acc, c : acc * 10 + (c - 48), 0, t)
Loose(t) == LooseMant(Abs(Mant(t))) /\ Abs(ExpT(t)) # <<>> /\ AllDigits(Abs(ExpT(t))) /\ Len(Abs(ExpT(t))) <= 3
LooseNum(t) == LET s == Split(Abs(Mant(t))) m == Mk(IF Neg(t) THEN -1 ELSE 1, NTrim(Nat10(s.a \o s.f)), Len(s.f))
                   e == Small(Abs(ExpT(t)))
               IN DScale(m, IF Neg(ExpT(t)) THEN -e ELSE e)
\* ok: whether it was accepted, x: the number then
ReadText(u, t, ok, x) ==
  IF Plain(t) /\ Len(Split(t).f) <= Places(u) THEN ok /\ DEq(x, NumOf(t))
  ELSE ok => Loose(t) /\ DEq(x, LooseNum(t)) /\ x.g >= 0 /\ Within(u, x)
\* JSON: a string, or a natural number; a negative number, or one with more digits than the unit has,
\* may be read from JSON but then is that number
Ws(c) == c \in {32, 9, 10, 13}
RECURSIVE Strip(_)
Strip(t) == IF t = <<>> THEN t ELSE IF Ws(t[1]) THEN Strip(Tail(t)) ELSE IF Ws(t[Len(t)]) THEN Strip(Front(t)) ELSE t
ReadJson(u, t0, ok, x) ==
  LET t == Strip(t0) q == Len(t) >= 2 /\ t[1] = 34 /\ t[Len(t)] = 34
      b == IF q THEN SubSeq(t, 2, Len(t) - 1) ELSE t
  IN /\ ok => Loose(b) /\ DEq(x, LooseNum(b))
     \* what has to be readable: what the library itself writes
     /\ q /\ Plain(b) /\ Len(Split(b).f) <= Places(u) => ok
     /\ ~q /\ Len(t) <= 19 /\ AllDigits(t) /\ t # <<>> /\ (t[1] # 48 \/ Len(t) = 1) => ok

------------------------------------------------------------------------------
\* conversions: by name and unit, the unit it gives and the power of ten it multiplies with
Conv(f, u, pm, ps) ==
  CASE f \in {"normalize", "into_normalized"} -> [u |-> "normalized", k |-> -(CASE u \in {"lovelace", "microalgo"} -> 6 [] u = "wei" -> 18 [] OTHER -> 0)]
    [] f \in {"to_lovelace", "into_lovelace"} -> [u |-> "lovelace", k |-> IF u = "regulated" THEN 0 ELSE 6]
    [] f \in {"to_ada", "into_ada"} -> [u |-> "ada", k |-> IF u = "lovelace" THEN -6 ELSE 0]
    [] f = "to_regulated" -> [u |-> "regulated", k |-> 0]
    [] f \in {"to_wei", "into_wei"} -> [u |-> "wei", k |-> 18]
    [] f \in {"to_ether", "into_ether"} -> [u |-> "ether", k |-> IF u = "wei" THEN -18 ELSE 0]
    [] f = "to_algo" -> [u |-> "algo", k |-> IF u = "microalgo" THEN -6 ELSE 0]
    [] f \in {"to_microalgo", "into_microalgo"} -> [u |-> "microalgo", k |-> 6]
    [] f = "from_mainchain" -> [u |-> "normalized", k |-> -pm]
    [] f = "from_sidechain" -> [u |-> "normalized", k |-> -ps]
    [] f = "to_mainchain" -> [u |-> "regulated", k |-> pm]
    [] f = "to_sidechain" -> [u |-> "regulated", k |-> ps]

------------------------------------------------------------------------------
Keep(e) == reg' = reg /\ DEq(e.r, reg[e.a].x) /\ e.ru = reg[e.a].u
Put(e, u, x) == reg' = [reg EXCEPT ![e.a] = [u |-> u, x |-> x]] /\ e.ru = u /\ DEq(e.r, x)
U64 == <<1615, 955, 737, 6744, 1844>>     \* 2^64-1
I64 == <<5807, 5477, 368, 3372, 922>>    \* 2^63-1
Do(e) ==
  LET X == reg[e.x] Y == reg[e.y] n == DNat(e.num)
  IN
  CASE e.op = "set" -> e.k = "ok" /\ Put(e, e.u, e.v)
    [] e.op = "const" -> e.k = "ok" /\ Put(e, e.u, CASE e.how = "zero" -> DZero [] e.how = "one" -> DNat(<<1>>) [] OTHER -> n)
    [] e.op \in {"parse", "json"} ->
         /\ e.k \in {"ok", "err"}
         /\ (IF e.op = "parse" THEN ReadText(e.u, e.t, e.k = "ok", e.r) ELSE ReadJson(e.u, e.t, e.k = "ok", e.r)) = TRUE
         /\ IF e.k = "ok" THEN Put(e, e.u, e.r) ELSE Keep(e)
    [] e.op = "conv" -> LET c == Conv(e.how, X.u, e.pm, e.ps) IN e.k = "ok" /\ Put(e, c.u, DScale(X.x, c.k))
    [] e.op = "add" -> e.k = "ok" /\ Put(e, X.u, DAdd(X.x, Y.x))
    [] e.op = "sub" -> e.k = "ok" /\ Put(e, X.u, DSub(X.x, Y.x))
    [] e.op = "mul" -> e.k = "ok" /\ Put(e, X.u, DMul(X.x, n))
    [] e.op = "div" ->
         \* a quotient may have to be rounded: 30 digits are right
         /\ e.k = "ok" /\ reg' = [reg EXCEPT ![e.a] = [u |-> X.u, x |-> e.r]] /\ e.ru = X.u
         /\ LET d == DSub(DMul(e.r, n), X.x) IN ~DLess([X.x EXCEPT !.g = IF @ = 0 THEN 0 ELSE 1], DScale([d EXCEPT !.g = IF @ = 0 THEN 0 ELSE 1], 30))
    [] e.op = "sum" -> e.k = "ok" /\ Put(e, e.u, FoldLeft(LAMBDA acc, i : DAdd(acc, reg[i].x), DZero, e.xs))
    [] e.op = "trunc" -> e.k = "ok" /\ IF X.x.g < 0 THEN reg' = [reg EXCEPT ![e.a] = [u |-> X.u, x |-> e.r]] ELSE Put(e, X.u, DFloor(X.x))
    [] e.op = "copy" -> e.k = "ok" /\ Put(e, X.u, X.x)
    [] e.op = "cmp" -> /\ e.k = "ok" /\ Keep(e)
                       /\ e.lt = DLess(X.x, Y.x) /\ e.gt = DLess(Y.x, X.x) /\ e.eq = DEq(X.x, Y.x) /\ e.ceq = e.eq
                       /\ (e.eq => e.heq)
    [] e.op = "prim" -> /\ e.k = "ok" /\ Keep(e)
                        /\ DInt([X.x EXCEPT !.g = IF @ = 0 THEN 0 ELSE 1]) =>
                             /\ IF X.x.g >= 0 /\ ~DLess(DNat(U64), X.x) THEN Len(e.u64) = 1 /\ DEq(DNat(e.u64[1]), X.x) ELSE e.u64 = <<>>
                             /\ IF ~DLess(DNat(I64), X.x) /\ ~DLess(X.x, DNeg(DNat(I64))) THEN Len(e.i64) = 1 /\ DEq(e.i64[1], X.x) ELSE TRUE
    [] e.op = "show" -> e.k = "ok" /\ Keep(e) /\ Len(e.back) = 1 /\ DEq(e.back[1], X.x)
=============================================================================
