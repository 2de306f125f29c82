------------------------------ MODULE Percent ------------------------------
(***************************************************************************)
(* Text as octets: UTF-8 (RFC 3629), and the percent encoding of URLs, of  *)
(* form data and of the Assuan protocol.                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences
HexVal(c) == IF c \in 48..57 THEN c - 48 ELSE IF c \in 65..70 THEN c - 55 ELSE IF c \in 97..102 THEN c - 87 ELSE -1
HexDigit(v) == IF v < 10 THEN 48 + v ELSE 55 + v
\* what is escaped, and a plus for a space where that is the custom
RECURSIVE Decode(_, _)
Decode(s, plus) ==
  IF s = <<>> THEN <<>>
  ELSE IF s[1] = 37 /\ Len(s) >= 3
       THEN IF HexVal(s[2]) >= 0 /\ HexVal(s[3]) >= 0
            THEN <<16 * HexVal(s[2]) + HexVal(s[3])>> \o Decode(SubSeq(s, 4, Len(s)), plus)
            ELSE <<37>> \o Decode(Tail(s), plus)
       ELSE <<IF plus /\ s[1] = 43 THEN 32 ELSE s[1]>> \o Decode(Tail(s), plus)
RECURSIVE Encode(_, _)
Encode(s, keep) ==
  IF s = <<>> THEN <<>>
  ELSE (IF s[1] \in keep THEN <<s[1]>> ELSE <<37, HexDigit(s[1] \div 16), HexDigit(s[1] % 16)>>) \o Encode(Tail(s), keep)
Utf(c) == IF c < 128 THEN <<c>>
          ELSE IF c < 2048 THEN <<192 + c \div 64, 128 + (c % 64)>>
          ELSE IF c < 65536 THEN <<224 + c \div 4096, 128 + ((c \div 64) % 64), 128 + (c % 64)>>
          ELSE <<240 + c \div 262144, 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
RECURSIVE Utf8(_)
Utf8(t) == IF t = <<>> THEN <<>> ELSE Utf(t[1]) \o Utf8(Tail(t))
RECURSIVE IsUtf8(_)
IsUtf8(s) ==
  LET cont(k) == Len(s) >= k /\ \A j \in 2..k : s[j] \in 128..191 IN
  IF s = <<>> THEN TRUE
  ELSE IF s[1] < 128 THEN IsUtf8(Tail(s))
  ELSE IF s[1] \in 194..223 THEN cont(2) /\ IsUtf8(SubSeq(s, 3, Len(s)))
  ELSE IF s[1] \in 224..239 THEN cont(3) /\ (s[1] = 224 => s[2] >= 160) /\ (s[1] = 237 => s[2] < 160) /\ IsUtf8(SubSeq(s, 4, Len(s)))
  ELSE IF s[1] \in 240..244 THEN cont(4) /\ (s[1] = 240 => s[2] >= 144) /\ (s[1] = 244 => s[2] < 144) /\ IsUtf8(SubSeq(s, 5, Len(s)))
  ELSE FALSE
RECURSIVE SplitAt(_, _)
\* the parts between separators
SplitAt(s, c) ==
  LET k == {j \in 1..Len(s) : s[j] = c} IN
  IF k = {} THEN <<s>>
  ELSE LET j == CHOOSE j \in k : \A m \in k : j <= m IN <<SubSeq(s, 1, j - 1)>> \o SplitAt(SubSeq(s, j + 1, Len(s)), c)
=============================================================================
