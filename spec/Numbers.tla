------------------------------ MODULE Numbers ------------------------------
(* Block numbers, slot numbers, output indices and timestamps: the numbers 0 .. 2^64-1 (C05).          *)
EXTENDS Dec
\* 18446744073709551615
U64Max == <<1615, 955, 737, 6744, 1844>>
Fits(n) == ~NLess(U64Max, n)
Code(c) == c \in 48..57
RECURSIVE Digits(_)
Digits(t) == IF t = <<>> THEN <<>> ELSE NAdd(NShift(Digits(Front(t)), 1), NOf(Head(<<t[Len(t)]>>) - 48))
AllDigits(t) == t # <<>> /\ \A i \in 1..Len(t) : Code(t[i])
\* results are <<>> (nothing) or <<n>>
Sum(x, y) == LET n == NAdd(x, y) IN IF Fits(n) THEN <<n>> ELSE <<>>
Clamp(x, y) == LET n == NAdd(x, y) IN IF Fits(n) THEN <<n>> ELSE <<U64Max>>
Minus(x, y) == IF NLess(x, y) THEN <<<<>>>> ELSE <<NSub(x, y)>>
\* reading: what is written with digits only is read exactly when it fits; with a leading plus sign or
\* zeros it may be read or refused; everything else is refused
Plain(t) == AllDigits(t) /\ (Len(t) = 1 \/ t[1] # 48)
Loose(t) == AllDigits(t) \/ (Len(t) > 1 /\ t[1] = 43 /\ AllDigits(Tail(t)))
Unsigned(t) == IF t[1] = 43 THEN Tail(t) ELSE t
Read(t, r) ==
  IF Plain(t) THEN r = (LET n == Digits(t) IN IF Fits(n) THEN <<n>> ELSE <<>>)
  ELSE r = <<>> \/ (Loose(t) /\ LET n == Digits(Unsigned(t)) IN Fits(n) /\ r = <<n>>)
\* JSON: a number, or (not for output indices) a string with a number
Ws(c) == c \in {32, 9, 10, 13}
RECURSIVE Strip(_)
Strip(t) == IF t = <<>> THEN t ELSE IF Ws(t[1]) THEN Strip(Tail(t)) ELSE IF Ws(t[Len(t)]) THEN Strip(Front(t)) ELSE t
Quoted(t) == Len(t) >= 2 /\ t[1] = 34 /\ t[Len(t)] = 34
ReadJson(ty, t0, r) ==
  LET t == Strip(t0) IN
  IF Plain(t) THEN Read(t, r)
  ELSE IF Quoted(t) THEN IF ty = "output" THEN r = <<>> ELSE Read(SubSeq(t, 2, Len(t) - 1), r)
  ELSE r = <<>>
Has(ty, op) == CASE op = "saturating_sub" -> ty = "block" [] op \in {"checked_next", "saturating_next", "checked_add", "saturating_add"} -> ty # "time" [] OTHER -> TRUE
Answer(e) ==
  IF ~Has(e.ty, e.op) THEN e.k = "none"
  ELSE /\ e.k = "ok"
       /\ CASE e.op = "new" -> e.r = <<e.x>>
            [] e.op = "cmp" -> e.r = <<<<IF NLess(e.x, e.y) THEN 1 ELSE 0>>, <<IF e.x = e.y THEN 1 ELSE 0>>, <<IF NLess(e.y, e.x) THEN 1 ELSE 0>>>>
            [] e.op = "checked_next" -> e.r = Sum(e.x, <<1>>)
            [] e.op = "saturating_next" -> e.r = Clamp(e.x, <<1>>)
            [] e.op = "checked_add" -> e.r = Sum(e.x, e.y)
            [] e.op = "saturating_add" -> e.r = Clamp(e.x, e.y)
            [] e.op = "saturating_sub" -> e.r = Minus(e.x, e.y)
            [] e.op \in {"show", "write"} -> Len(e.r) = 1 /\ Plain(e.r[1]) /\ Digits(e.r[1]) = e.x
            [] e.op = "parse" -> Read(e.t, e.r)
            [] e.op \in {"json", "from_value"} -> ReadJson(e.ty, e.t, e.r)
=============================================================================
