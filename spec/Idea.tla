-------------------------------- MODULE Idea --------------------------------
(***************************************************************************)
(* The IDEA block cipher (Lai and Massey) over 16-bit words.  All products *)
(* are split so that they stay below 2^31.                                 *)
(***************************************************************************)
EXTENDS Naturals, Sequences, SequencesExt, Bitwise
Word == 0..65535
\* multiplication modulo 65537, the word 0 standing for 65536
Mul(x, y) ==
  LET a == IF x = 0 THEN 65536 ELSE x
      b == IF y = 0 THEN 65536 ELSE y
      r == (((a * (b \div 256)) % 65537) * 256 + a * (b % 256)) % 65537
  IN IF r = 65536 THEN 0 ELSE r
Add(x, y) == (x + y) % 65536
Neg(x) == (65536 - x) % 65536
RECURSIVE Pow(_, _)
Pow(x, n) == IF n = 0 THEN 1 ELSE IF n % 2 = 1 THEN Mul(x, Pow(x, n - 1)) ELSE LET h == Pow(x, n \div 2) IN Mul(h, h)
Inv(x) == Pow(x, 65535)

Words(octets) == [i \in 1..(Len(octets) \div 2) |-> octets[2 * i - 1] * 256 + octets[2 * i]]
Octets(words) == [i \in 1..(2 * Len(words)) |-> IF i % 2 = 1 THEN words[(i + 1) \div 2] \div 256 ELSE words[i \div 2] % 256]

\* the key rotated left by 25 bits: one word and nine bits
Rotate(k) == [i \in 1..8 |-> LET a == k[(i % 8) + 1]  b == k[((i + 1) % 8) + 1] IN ((a * 512) % 65536) + b \div 128]
RECURSIVE Schedule(_, _)
Schedule(k, n) == IF n = 0 THEN <<>> ELSE k \o Schedule(Rotate(k), n - 1)
EncKeys(key) == SubSeq(Schedule(Words(key), 7), 1, 52)
DecKeys(Z) ==
  LET z(r, i) == Z[6 * (r - 1) + i]
      Round(r) == <<Inv(z(10 - r, 1)),
                    IF r = 1 THEN Neg(z(9, 2)) ELSE Neg(z(10 - r, 3)),
                    IF r = 1 THEN Neg(z(9, 3)) ELSE Neg(z(10 - r, 2)),
                    Inv(z(10 - r, 4))>>
  IN FlattenSeq([r \in 1..8 |-> Round(r) \o <<z(9 - r, 5), z(9 - r, 6)>>])
     \o <<Inv(z(1, 1)), Neg(z(1, 2)), Neg(z(1, 3)), Inv(z(1, 4))>>
RoundOf(x, K) ==
  LET a == Mul(x[1], K[1])  b == Add(x[2], K[2])  c == Add(x[3], K[3])  d == Mul(x[4], K[4])
      e == Mul(a ^^ c, K[5])
      f == Mul(Add(b ^^ d, e), K[6])
      g == Add(e, f)
  IN <<a ^^ f, c ^^ f, b ^^ g, d ^^ g>>
RECURSIVE Rounds(_, _)
Rounds(x, Z) == IF Len(Z) = 4 THEN <<Mul(x[1], Z[1]), Add(x[3], Z[2]), Add(x[2], Z[3]), Mul(x[4], Z[4])>>
                ELSE Rounds(RoundOf(x, SubSeq(Z, 1, 6)), SubSeq(Z, 7, Len(Z)))
Encrypt(key, block) == Octets(Rounds(Words(block), EncKeys(key)))
Decrypt(key, block) == Octets(Rounds(Words(block), DecKeys(EncKeys(key))))
=============================================================================
