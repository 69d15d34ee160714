-------------------------------- MODULE Wire --------------------------------
(* Items written as JSON (C06). An item is what can be seen of it (obs). Writing and reading gives the *)
(* item back; an object is read as a transaction or an asset exactly when it has every mandatory field *)
(* and none that is unknown, in any order.                                                             *)
EXTENDS Integers, Sequences
Fields(ty) == IF ty = "asset" THEN {"policyId", "assetName", "fingerprint", "quantity"}
              ELSE {"transactionId", "inputs", "outputs", "metadata"}
Mandatory(ty) == IF ty = "asset" THEN Fields(ty) ELSE Fields(ty) \ {"metadata"}
FieldSet(f) == {f[i] : i \in 1..Len(f)}
Twice(f) == \E i, j \in 1..Len(f) : i # j /\ f[i] = f[j]
Readable(ty, f) == Mandatory(ty) \subseteq FieldSet(f) /\ FieldSet(f) \subseteq Fields(ty)
Answer(e) ==
  CASE e.op = "round" -> e.k = "ok" /\ e.same /\ e.back = <<e.obs>>
    [] e.op = "read" ->
         IF Twice(e.fields) THEN e.k # "panic"
         ELSE IF ~Readable(e.ty, e.fields) THEN e.k = "err"
         ELSE /\ e.k = "ok"
              /\ e.back = <<IF e.ty = "transaction" /\ "metadata" \notin FieldSet(e.fields) THEN [e.obs EXCEPT !.m = "null"] ELSE e.obs>>
=============================================================================
