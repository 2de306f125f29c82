------------------------------- MODULE Octets -------------------------------
(***************************************************************************)
(* Octet sequences and the scalar encodings of RFC 4880, section 3.        *)
(* Integers of any size are sequences of octets, most significant first,   *)
(* without leading zeros (zero is <<>>).                                   *)
(***************************************************************************)
EXTENDS Naturals, Sequences, SequencesExt, Bitwise

Byte == 0..255
Zeros(n) == [i \in 1..n |-> 0]
Sub(s, from, n) == SubSeq(s, from, from + n - 1)
RECURSIVE Strip(_)
Strip(s) == IF s # <<>> /\ Head(s) = 0 THEN Strip(Tail(s)) ELSE s
PadTo(s, n) == IF Len(s) >= n THEN s ELSE Zeros(n - Len(s)) \o s
LastN(s, n) == IF Len(s) <= n THEN s ELSE SubSeq(s, Len(s) - n + 1, Len(s))
CatAll(ss) == FoldLeft(LAMBDA a, b : a \o b, <<>>, ss)

RECURSIVE BitsOf(_)
BitsOf(b) == IF b = 0 THEN 0 ELSE 1 + BitsOf(b \div 2)
BitLen(n) == IF n = <<>> THEN 0 ELSE 8 * (Len(n) - 1) + BitsOf(n[1])
U(v, w) == [i \in 1..w |-> (v \div (256 ^ (w - i))) % 256]    \* v < 2^31
U2(v) == <<(v \div 256) % 256, v % 256>>
U4(v) == <<(v \div 16777216) % 256, (v \div 65536) % 256, (v \div 256) % 256, v % 256>>
Val(s) == FoldLeft(LAMBDA a, b : a * 256 + b, 0, s)             \* < 2^31
RECURSIVE ToOctets(_)
ToOctets(v) == IF v = 0 THEN <<>> ELSE Append(ToOctets(v \div 256), v % 256)

\* 3.2 multiprecision integers
Mpi(n) == U2(BitLen(n)) \o n
MpiLen(s) == (Val(SubSeq(s, 1, 2)) + 7) \div 8
MpiVal(s) == Strip(SubSeq(s, 3, 2 + MpiLen(s)))
MpiRest(s) == SubSeq(s, 3 + MpiLen(s), Len(s))
MpiReadable(s) == Len(s) >= 2 /\ Len(s) >= 2 + MpiLen(s)
RECURSIVE MpiAll(_)
MpiAll(ns) == IF ns = <<>> THEN <<>> ELSE Mpi(Head(ns)) \o MpiAll(Tail(ns))

\* 3.7.1.3 coded iteration counts
CountOf(c) == (16 + (c % 16)) * (2 ^ ((c \div 16) + 6))
Codable(v) == {c \in Byte : CountOf(c) = v}

\* hexadecimal digits as characters codes of 0-9A-F
HexDigit(d) == IF d < 10 THEN 48 + d ELSE 55 + d
Hex(s) == CatAll([i \in 1..Len(s) |-> <<HexDigit(s[i] \div 16), HexDigit(s[i] % 16)>>])
HexMin(n) == LET h == Hex(n) IN
             IF n = <<>> THEN <<48>> ELSE IF h[1] = 48 THEN Tail(h) ELSE h

\* 6.1 the CRC-24 of armored data
Poly == 25578747           \* 0x1864CFB
RECURSIVE Crc8(_, _)
Crc8(c, k) == IF k = 0 THEN c
              ELSE LET d == c * 2 IN
                   Crc8(IF d >= 16777216 THEN d ^^ Poly ELSE d, k - 1)
CrcTable == [b \in Byte |-> Crc8(b * 65536, 8)]
CrcStep(c, b) == LET t == (c \div 65536) ^^ b IN
                 ((c % 65536) * 256) ^^ CrcTable[t]
Crc24(s) == FoldLeft(CrcStep, 11994318, s)      \* 0xB704CE
=============================================================================
