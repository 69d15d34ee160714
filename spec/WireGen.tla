------------------------------- MODULE WireGen -------------------------------
(* Every object with some of the fields, in every order, and up to one unknown field.                  *)
EXTENDS Wire, TLC, Json
CONSTANT Variant
VARIABLES ty, hist
Unknown == {"unknown"}
GInit == ty \in {"asset", "transaction"} /\ hist = <<>> /\ PrintT(<<"HIST", ToJson([ty |-> ty, fields |-> <<>>])>>)
GNext == \E f \in (Fields(ty) \cup Unknown) \ FieldSet(hist) :
           hist' = Append(hist, f) /\ ty' = ty /\ PrintT(<<"HIST", ToJson([ty |-> ty, fields |-> hist'])>>)
GSpec == GInit /\ [][GNext]_<<ty, hist>>
\* a reader that goes field by field accepts exactly the readable objects: it stops at an unknown one,
\* and at the end asks for what is missing
RECURSIVE Scan(_, _)
Scan(f, got) == IF f = <<>> THEN (Mandatory(ty) \ (IF Variant = "defaults" THEN {"inputs"} ELSE {})) \subseteq got
                ELSE IF Head(f) \notin Fields(ty) THEN FALSE ELSE Scan(Tail(f), got \cup {Head(f)})
Agree == Scan(hist, {}) = Readable(ty, hist)
=============================================================================
