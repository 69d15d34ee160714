------------------------------ MODULE ValuesGen ------------------------------
(* The units and the conversions between them, on powers of ten: a register is 10^k of a unit, b is    *)
(* the power of ten of the same amount in the normalized unit. Checked: whatever conversions follow    *)
(* each other, the amount stays the same (a rule with another precision than the main chain's six      *)
(* digits re-denominates it on purpose). Generates one history for every transition.                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxOps, Variant, Emit
VARIABLES reg, hist
vars == <<reg, hist>>
Units == {"normalized", "regulated", "lovelace", "ada", "ether", "wei", "algo", "microalgo"}
Canon(u) == CASE u \in {"lovelace", "microalgo", "regulated"} -> 6 [] u = "wei" -> 18 [] OTHER -> 0
PM == 6
PS == 18
\* function, from, to, power of ten, change of b
C(f, u, v, k, b) == [f |-> f, u |-> u, v |-> v, k |-> k, b |-> b]
Table == {C("normalize", "ada", "normalized", 0, 0), C("to_lovelace", "ada", "lovelace", 6, 0), C("into_lovelace", "ada", "lovelace", 6, 0), C("into_normalized", "ada", "normalized", 0, 0),
          C("normalize", "lovelace", "normalized", -6, 0), C("to_ada", "lovelace", "ada", -6, 0), C("to_regulated", "lovelace", "regulated", 0, 0), C("into_normalized", "lovelace", "normalized", -6, 0),
          C("to_lovelace", "regulated", "lovelace", 0, 0), C("from_mainchain", "regulated", "normalized", -PM, 6 - PM), C("from_sidechain", "regulated", "normalized", -PS, 6 - PS),
          C("to_mainchain", "normalized", "regulated", PM, PM - 6), C("to_sidechain", "normalized", "regulated", PS, PS - 6),
          C("to_ada", "normalized", "ada", 0, 0), C("into_ada", "normalized", "ada", 0, 0), C("to_lovelace", "normalized", "lovelace", 6, 0), C("into_lovelace", "normalized", "lovelace", 6, 0),
          C("to_ether", "normalized", "ether", 0, 0), C("into_ether", "normalized", "ether", 0, 0), C("to_wei", "normalized", "wei", 18, 0), C("into_wei", "normalized", "wei", 18, 0),
          C("to_algo", "normalized", "algo", 0, 0), C("to_microalgo", "normalized", "microalgo", 6, 0), C("into_microalgo", "normalized", "microalgo", 6, 0),
          C("normalize", "ether", "normalized", 0, 0), C("to_wei", "ether", "wei", 18, 0), C("into_normalized", "ether", "normalized", 0, 0),
          C("normalize", "wei", "normalized", -18, 0), C("to_ether", "wei", "ether", -18, 0), C("into_normalized", "wei", "normalized", -18, 0),
          C("normalize", "algo", "normalized", 0, 0), C("to_microalgo", "algo", "microalgo", 6, 0), C("into_normalized", "algo", "normalized", 0, 0),
          C("normalize", "microalgo", "normalized", -6, 0), C("to_algo", "microalgo", IF Variant = "algo_ether" THEN "ether" ELSE "algo", IF Variant = "algo_twice" THEN -12 ELSE -6, 0), C("into_normalized", "microalgo", "normalized", -6, 0)}
Regs == 1..2
R(u, k, b) == [u |-> u, k |-> k, b |-> b]
Rec(o) == hist' = Append(hist, o) /\ (Emit => PrintT(<<"HIST", ToJson(hist')>>))
GInit == reg = [r \in Regs |-> R("lovelace", 0, -6)] /\ hist = <<>>
GNext == /\ Len(hist) < MaxOps
         /\ \E a \in Regs :
            \/ \E u \in Units : /\ hist = <<>> \/ a = 2
                                /\ reg' = [reg EXCEPT ![a] = R(u, 0, -Canon(u))] /\ Rec([op |-> "set", a |-> a, x |-> a, y |-> a, u |-> u, how |-> ""])
            \/ \E x \in Regs : \E c \in Table :
                 /\ c.u = reg[x].u /\ reg[x].b + c.b \in -30..30
                 /\ reg' = [reg EXCEPT ![a] = R(c.v, reg[x].k + c.k, reg[x].b + c.b)]
                 /\ Rec([op |-> "conv", a |-> a, x |-> x, y |-> x, u |-> "", how |-> c.f])
            \/ /\ reg[1].u = reg[2].u /\ reg[1].k = reg[2].k
               /\ \E o \in {"add", "sub", "cmp"} : /\ reg' = [reg EXCEPT ![a] = @] /\ Rec([op |-> o, a |-> a, x |-> 1, y |-> 2, u |-> "", how |-> ""])
            \/ \E o \in {"trunc", "show", "prim", "mul", "div"} : /\ reg' = reg /\ Rec([op |-> o, a |-> a, x |-> a, y |-> a, u |-> "", how |-> ""])
GSpec == GInit /\ [][GNext]_vars
GView == <<reg, IF hist = <<>> THEN "" ELSE hist[Len(hist)].op>>
Lossless == \A r \in Regs : reg[r].k = reg[r].b + Canon(reg[r].u)
\* every way of a conversion and back through the other unit ends at the same number
Back == \A c \in Table, d \in Table : c.u = d.v /\ c.v = d.u /\ c.b + d.b = 0 => c.k + d.k = 0
=============================================================================
