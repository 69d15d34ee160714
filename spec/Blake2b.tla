------------------------------ MODULE Blake2b ------------------------------
(* BLAKE2b (RFC 7693), without a key. Bytes are 0..255; a 64-bit word is four 16-bit limbs, least      *)
(* significant first.                                                                                  *)
EXTENDS Integers, Sequences, Bitwise
Limb == 65536
WAdd(a, b) ==
  LET s0 == a[1] + b[1]
      s1 == a[2] + b[2] + s0 \div Limb
      s2 == a[3] + b[3] + s1 \div Limb
      s3 == a[4] + b[4] + s2 \div Limb
  IN <<s0 % Limb, s1 % Limb, s2 % Limb, s3 % Limb>>
WXor(a, b) == <<a[1] ^^ b[1], a[2] ^^ b[2], a[3] ^^ b[3], a[4] ^^ b[4]>>
\* rotations to the right
Rot32(a) == <<a[3], a[4], a[1], a[2]>>
Rot16(a) == <<a[2], a[3], a[4], a[1]>>
Rot24(a) == LET r == Rot16(a) p(i, j) == (r[i] \div 256) + ((r[j] % 256) * 256) IN <<p(1, 2), p(2, 3), p(3, 4), p(4, 1)>>
Rot63(a) == LET p(i, j) == ((a[i] * 2) % Limb) + (a[j] \div 32768) IN <<p(1, 4), p(2, 1), p(3, 2), p(4, 3)>>

IV == << <<51464, 62396, 58983, 27145>>,    \* 6a09e667f3bcc908
         <<42811, 33994, 44677, 47975>>,    \* bb67ae8584caa73b
         <<63531, 65172, 62322, 15470>>,    \* 3c6ef372fe94f82b
         <<14065, 24349, 62778, 42319>>,    \* a54ff53a5f1d36f1
         <<33489, 44518, 21119, 20750>>,    \* 510e527fade682d1
         <<27679, 11070, 26764, 39685>>,    \* 9b05688c2b3e6c1f
         <<48491, 64321, 55723, 8067>>,     \* 1f83d9abfb41bd6b
         <<8569, 4990, 52505, 23520>> >>    \* 5be0cd19137e2179
Sigma == << <<0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15>>,
            <<14, 10, 4, 8, 9, 15, 13, 6, 1, 12, 0, 2, 11, 7, 5, 3>>,
            <<11, 8, 12, 0, 5, 2, 15, 13, 10, 14, 3, 6, 7, 1, 9, 4>>,
            <<7, 9, 3, 1, 13, 12, 11, 14, 2, 6, 5, 10, 4, 0, 15, 8>>,
            <<9, 0, 5, 7, 2, 4, 10, 15, 14, 1, 11, 12, 6, 8, 3, 13>>,
            <<2, 12, 6, 10, 0, 11, 8, 3, 4, 13, 7, 5, 15, 14, 1, 9>>,
            <<12, 5, 1, 15, 14, 13, 4, 10, 0, 7, 6, 3, 9, 2, 8, 11>>,
            <<13, 11, 7, 14, 12, 1, 3, 9, 5, 0, 15, 4, 8, 6, 2, 10>>,
            <<6, 15, 14, 9, 11, 3, 0, 8, 12, 2, 13, 7, 1, 4, 10, 5>>,
            <<10, 2, 8, 4, 7, 6, 1, 5, 15, 11, 9, 14, 3, 12, 13, 0>> >>
\* the columns and diagonals mixed in a round
Quads == << <<1, 5, 9, 13>>, <<2, 6, 10, 14>>, <<3, 7, 11, 15>>, <<4, 8, 12, 16>>, <<1, 6, 11, 16>>, <<2, 7, 12, 13>>, <<3, 8, 9, 14>>, <<4, 5, 10, 15>> >>

Mix(v, q, x, y) ==
  LET a1 == WAdd(WAdd(v[q[1]], v[q[2]]), x)
      d1 == Rot32(WXor(v[q[4]], a1))
      c1 == WAdd(v[q[3]], d1)
      b1 == Rot24(WXor(v[q[2]], c1))
      a2 == WAdd(WAdd(a1, b1), y)
      d2 == Rot16(WXor(d1, a2))
      c2 == WAdd(c1, d2)
      b2 == Rot63(WXor(b1, c2))
  IN [v EXCEPT ![q[1]] = a2, ![q[2]] = b2, ![q[3]] = c2, ![q[4]] = d2]
RECURSIVE Mixes(_, _, _, _)
\* the k-th of the 96 mixes on, of the words m of a block
Mixes(v, m, k, to) ==
  IF k = to THEN v
  ELSE LET s == Sigma[((k \div 8) % 10) + 1] i == k % 8
       IN Mixes(Mix(v, Quads[i + 1], m[s[2 * i + 1] + 1], m[s[2 * i + 2] + 1]), m, k + 1, to)
Byte(d, i) == IF i <= Len(d) THEN d[i] ELSE 0
Word(d, i) == [l \in 1..4 |-> Byte(d, i + 2 * l - 1) + 256 * Byte(d, i + 2 * l)]     \* the eight bytes after the i-th
\* one block: the bytes of d after the first n, t of them counted
Compress(h, d, n, t, last) ==
  LET m == [k \in 1..16 |-> Word(d, n + 8 * (k - 1))]
      tw == <<t % Limb, t \div Limb, 0, 0>>
      v0 == [k \in 1..16 |-> IF k <= 8 THEN h[k] ELSE IF k = 13 THEN WXor(IV[5], tw)
                              ELSE IF k = 15 /\ last THEN WXor(IV[7], <<65535, 65535, 65535, 65535>>) ELSE IV[k - 8]]
      v == Mixes(v0, m, 0, 96)
  IN [k \in 1..8 |-> WXor(WXor(h[k], v[k]), v[k + 8])]
RECURSIVE Absorb(_, _, _)
Absorb(h, d, n) == IF Len(d) - n <= 128 THEN Compress(h, d, n, Len(d), TRUE) ELSE Absorb(Compress(h, d, n, n + 128, FALSE), d, n + 128)
\* the first nn bytes of the state, nn in 1..64
Hash(d, nn) ==
  LET h == Absorb([k \in 1..8 |-> IF k = 1 THEN WXor(IV[1], <<nn, 257, 0, 0>>) ELSE IV[k]], d, 0)
      byte(i) == LET l == h[(i \div 8) + 1][((i % 8) \div 2) + 1] IN IF i % 2 = 0 THEN l % 256 ELSE l \div 256
  IN [i \in 1..nn |-> byte(i - 1)]
=============================================================================
