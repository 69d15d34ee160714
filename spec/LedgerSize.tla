------------------------------ MODULE LedgerSize ------------------------------
(* The size of a transaction on the ledger, from its parts and their CBOR, and the least fee for it.   *)
(* tx = [ins: bytes of the inputs, ni, outs: bytes of the outputs, no, q, k: signatures and keys of    *)
(* the n-of-k script, magic: length of the metadata text, -1 without]                                  *)
EXTENDS Integers, Sequences
\* the header of a CBOR item, or an unsigned integer
Head4(n) == IF n < 24 THEN 1 ELSE IF n < 256 THEN 2 ELSE IF n < 65536 THEN 3 ELSE 5
InSize(idx) == 1 + (2 + 32) + Head4(idx)
\* coin and qty are the sizes of these integers; name is the length of the token's name, -1 without a token
OutSize(addr, coin, name, qty) ==
  1 + Head4(addr) + addr + (IF name < 0 THEN coin ELSE 1 + coin + 1 + (2 + 28) + 1 + Head4(name) + name + qty)
Script(q, k) == 1 + 1 + Head4(q) + Head4(k) + k * (1 + 1 + 2 + 28)
Witness(q) == 1 + (2 + 32) + (2 + 64)
Body(tx) == 1 + (1 + Head4(tx.ni) + tx.ins) + (1 + Head4(tx.no) + tx.outs) + (1 + 5) + (IF tx.magic < 0 THEN 0 ELSE 1 + 2 + 32)
Witnesses(tx) == 1 + (IF tx.q = 0 THEN 0 ELSE 1 + Head4(tx.q) + tx.q * Witness(tx.q)) + (1 + 1 + Script(tx.q, tx.k))
Aux(tx) == IF tx.magic < 0 THEN 1 ELSE 1 + 2 + Head4(tx.magic) + tx.magic
Size(tx) == 1 + Body(tx) + Witnesses(tx) + 1 + Aux(tx)
LeastFee(tx, a, b) == a * Size(tx) + b
Empty(q, k) == [ins |-> 0, ni |-> 0, outs |-> 0, no |-> 0, q |-> q, k |-> k, magic |-> -1]
WithIn(tx, idx) == [tx EXCEPT !.ins = @ + InSize(idx), !.ni = @ + 1]
WithOut(tx, addr, coin, name, qty) == [tx EXCEPT !.outs = @ + OutSize(addr, coin, name, qty), !.no = @ + 1]
WithMagic(tx, len) == [tx EXCEPT !.magic = len]
\* measured by the repository's tests with the real library
ASSUME /\ 1 + Body(Empty(0, 0)) + 1 + 1 + 1 = 15
       /\ InSize(0) = 36 /\ InSize(200) = 37
       /\ OutSize(57, 9, 28, 9) = 141 /\ Witness(1) = 101
       /\ 1 + 2 + Head4(22) + 22 = 26 /\ 1 + 2 + Head4(0) = 4
=============================================================================
