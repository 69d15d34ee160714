---------------------------- MODULE Fingerprint ----------------------------
(* CIP-14 as the library offers it: an asset is named by two texts, the hexadecimal policy id of 28    *)
(* bytes and the hexadecimal asset name; its fingerprint is a text of 64 characters, the hexadecimal   *)
(* 20-byte hash of policy and name followed by zeros. Texts are sequences of character codes.          *)
EXTENDS Blake2b
Digit(c) == IF c \in 48..57 THEN c - 48 ELSE IF c \in 97..102 THEN c - 87 ELSE IF c \in 65..70 THEN c - 55 ELSE -1
IsHex(s) == Len(s) % 2 = 0 /\ \A i \in 1..Len(s) : Digit(s[i]) >= 0
Bytes(s) == [i \in 1..(Len(s) \div 2) |-> 16 * Digit(s[2 * i - 1]) + Digit(s[2 * i])]
Char(n) == IF n < 10 THEN 48 + n ELSE 87 + n
Text(b) == [i \in 1..(2 * Len(b)) |-> Char(IF i % 2 = 1 THEN b[(i + 1) \div 2] \div 16 ELSE b[i \div 2] % 16)]
IsPolicy(p) == IsHex(p) /\ Len(p) = 56
Asset(p, n) == IsPolicy(p) /\ IsHex(n)
Padded(t) == [i \in 1..64 |-> IF i <= Len(t) THEN t[i] ELSE 48]
\* <<>> when there is no such asset
PrintOf(p, n) == IF Asset(p, n) THEN Padded(Text(Hash(Bytes(p) \o Bytes(n), 20))) ELSE <<>>
=============================================================================
