------------------------------ MODULE Deflate ------------------------------
(***************************************************************************)
(* The compressed formats: DEFLATE (RFC 1951) with its three kinds of      *)
(* blocks, and ZLIB (RFC 1950) around it.  A reader of any stream, and     *)
(* writers of stored blocks and of blocks with the fixed codes.            *)
(***************************************************************************)
EXTENDS Naturals, Sequences, SequencesExt, FiniteSets
Pow2 == <<1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192, 16384, 32768>>
Bit(S, p) == (S[(p \div 8) + 1] \div Pow2[(p % 8) + 1]) % 2
Has(S, p, n) == p + n <= 8 * Len(S)
RECURSIVE Bits(_, _, _)
Bits(S, p, n) == IF n = 0 THEN 0 ELSE Bit(S, p) + 2 * Bits(S, p + 1, n - 1)

\* canonical codes: lens[i] is the length of the code of symbol i - 1
Code(lens) ==
  LET count == [l \in 1..15 |-> Cardinality({i \in 1..Len(lens) : lens[i] = l})]
      Of(l) == SelectSeq([i \in 1..Len(lens) |-> i], LAMBDA i : lens[i] = l)
      Use(l) == IF count[l] = 0 THEN <<>> ELSE Of(l)
      syms == Use(1) \o Use(2) \o Use(3) \o Use(4) \o Use(5) \o Use(6) \o Use(7) \o Use(8) \o Use(9) \o Use(10)
              \o Use(11) \o Use(12) \o Use(13) \o Use(14) \o Use(15)
      RECURSIVE Left(_)
      Left(l) == IF l = 0 THEN 1 ELSE 2 * Left(l - 1) - count[l]
      left == [l \in 0..15 |-> Left(l)]
  IN [count |-> count, syms |-> syms, over |-> \E l \in 1..15 : \E k \in {l} : left[k] < 0, full |-> left[15] = 0]
\* a symbol: <<status, symbol, position>>
RECURSIVE Dec(_, _, _, _, _, _, _)
Dec(S, p, C, len, code, first, index) ==
  IF len > 15 THEN <<"bad", 0, p>>
  ELSE IF ~Has(S, p, 1) THEN <<"short", 0, p>>
  ELSE LET c == code + Bit(S, p) IN
       IF c < first + C.count[len] THEN <<"ok", C.syms[index + (c - first) + 1] - 1, p + 1>>
       ELSE Dec(S, p + 1, C, len + 1, 2 * c, 2 * (first + C.count[len]), index + C.count[len])
Symbol(S, p, C) == Dec(S, p, C, 1, 0, 0, 0)

LenBase == <<3, 4, 5, 6, 7, 8, 9, 10, 11, 13, 15, 17, 19, 23, 27, 31, 35, 43, 51, 59, 67, 83, 99, 115, 131, 163, 195, 227, 258>>
LenExtra == <<0, 0, 0, 0, 0, 0, 0, 0, 1, 1, 1, 1, 2, 2, 2, 2, 3, 3, 3, 3, 4, 4, 4, 4, 5, 5, 5, 5, 0>>
DistBase == <<1, 2, 3, 4, 5, 7, 9, 13, 17, 25, 33, 49, 65, 97, 129, 193, 257, 385, 513, 769, 1025, 1537, 2049, 3073, 4097, 6145,
              8193, 12289, 16385, 24577>>
DistExtra == <<0, 0, 0, 0, 1, 1, 2, 2, 3, 3, 4, 4, 5, 5, 6, 6, 7, 7, 8, 8, 9, 9, 10, 10, 11, 11, 12, 12, 13, 13>>
FixedLit == Code([i \in 1..288 |-> IF i <= 144 THEN 8 ELSE IF i <= 256 THEN 9 ELSE IF i <= 280 THEN 7 ELSE 8])
FixedDist == Code([i \in 1..30 |-> 5])
Order == <<16, 17, 18, 0, 8, 7, 9, 6, 10, 5, 11, 4, 12, 3, 13, 2, 14, 1, 15>>

R(st, p, out) == [st |-> st, p |-> p, out |-> out]
RECURSIVE Copy(_, _, _)
Copy(out, dist, n) == IF n = 0 THEN out ELSE Copy(Append(out, out[Len(out) + 1 - dist]), dist, n - 1)
RECURSIVE Body(_, _, _, _, _)
Body(S, p, out, L, D) ==
  LET y == Symbol(S, p, L) IN
  IF y[1] # "ok" THEN R(y[1], p, out)
  ELSE IF y[2] < 256 THEN Body(S, y[3], Append(out, y[2]), L, D)
  ELSE IF y[2] = 256 THEN R("ok", y[3], out)
  ELSE IF y[2] > 285 THEN R("bad", p, out)
  ELSE LET k == y[2] - 256  e == LenExtra[k] IN
       IF ~Has(S, y[3], e) THEN R("short", p, out)
       ELSE LET n == LenBase[k] + Bits(S, y[3], e)
                d == Symbol(S, y[3] + e, D) IN
            IF d[1] # "ok" THEN R(d[1], p, out)
            ELSE IF d[2] > 29 THEN R("bad", p, out)
            ELSE LET f == DistExtra[d[2] + 1] IN
                 IF ~Has(S, d[3], f) THEN R("short", p, out)
                 ELSE LET dist == DistBase[d[2] + 1] + Bits(S, d[3], f) IN
                      IF dist > Len(out) THEN R("bad", p, out)
                      ELSE Body(S, d[3] + f, Copy(out, dist, n), L, D)
Stored(S, p, out) ==
  LET q == ((p + 7) \div 8) * 8 IN
  IF ~Has(S, q, 32) THEN R("short", p, out)
  ELSE LET n == Bits(S, q, 16) IN
       IF n + Bits(S, q + 16, 16) # 65535 THEN R("bad", p, out)
       ELSE IF ~Has(S, q + 32, 8 * n) THEN R("short", p, out)
       ELSE R("ok", q + 32 + 8 * n, out \o SubSeq(S, (q + 32) \div 8 + 1, (q + 32) \div 8 + n))
\* the code lengths of a block with its own codes
RECURSIVE Lengths(_, _, _, _, _)
Lengths(S, p, C, got, want) ==
  IF Len(got) = want THEN R("ok", p, got)
  ELSE LET y == Symbol(S, p, C) IN
       IF y[1] # "ok" THEN R(y[1], p, got)
       ELSE IF y[2] < 16 THEN Lengths(S, y[3], C, Append(got, y[2]), want)
       ELSE LET e == IF y[2] = 16 THEN 2 ELSE IF y[2] = 17 THEN 3 ELSE 7 IN
            IF ~Has(S, y[3], e) THEN R("short", p, got)
            ELSE IF y[2] = 16 /\ got = <<>> THEN R("bad", p, got)
            ELSE LET n == Bits(S, y[3], e) + (IF y[2] = 18 THEN 11 ELSE 3)
                     v == IF y[2] = 16 THEN got[Len(got)] ELSE 0 IN
                 IF Len(got) + n > want THEN R("bad", p, got)
                 ELSE Lengths(S, y[3] + e, C, got \o [k \in 1..n |-> v], want)
Dynamic(S, p, out) ==
  IF ~Has(S, p, 14) THEN R("short", p, out)
  ELSE LET hl == Bits(S, p, 5) + 257  hd == Bits(S, p + 5, 5) + 1  hc == Bits(S, p + 10, 4) + 4 IN
       IF hl > 286 \/ hd > 30 THEN R("odd", p, out)
       ELSE IF ~Has(S, p + 14, 3 * hc) THEN R("short", p, out)
       ELSE LET cl == [i \in 1..19 |-> LET k == CHOOSE k \in 1..19 : Order[k] = i - 1 IN
                                       IF k <= hc THEN Bits(S, p + 14 + 3 * (k - 1), 3) ELSE 0]
                C == Code(cl) IN
            IF C.over THEN R("bad", p, out)
            ELSE IF ~C.full THEN R("odd", p, out)
            ELSE LET a == Lengths(S, p + 14 + 3 * hc, C, <<>>, hl + hd) IN
                 IF a.st # "ok" THEN R(a.st, p, out)
                 ELSE LET L == Code(SubSeq(a.out, 1, hl))  D == Code(SubSeq(a.out, hl + 1, hl + hd)) IN
                      IF L.over \/ D.over THEN R("bad", p, out)
                      ELSE IF a.out[257] = 0 \/ ~L.full \/ (~D.full /\ Len(D.syms) # 1) THEN R("odd", p, out)
                      ELSE Body(S, a.p, out, L, D)
RECURSIVE Blocks(_, _, _)
Blocks(S, p, out) ==
  IF ~Has(S, p, 3) THEN R("short", p, out)
  ELSE LET t == Bits(S, p + 1, 2)
           b == CASE t = 0 -> Stored(S, p + 3, out)
                  [] t = 1 -> Body(S, p + 3, out, FixedLit, FixedDist)
                  [] t = 2 -> Dynamic(S, p + 3, out)
                  [] t = 3 -> R("bad", p, out) IN
       IF b.st # "ok" \/ Bit(S, p) = 1 THEN b ELSE Blocks(S, b.p, b.out)
\* the whole stream: status "more" when octets follow it
Inflate(S) == LET b == Blocks(S, 0, <<>>) IN
              IF b.st = "ok" /\ (b.p + 7) \div 8 < Len(S) THEN [b EXCEPT !.st = "more"] ELSE b

RECURSIVE Adler(_, _, _, _)
Adler(D, i, a, b) == IF i > Len(D) THEN <<b \div 256, b % 256, a \div 256, a % 256>>
                     ELSE LET x == (a + D[i]) % 65521 IN Adler(D, i + 1, x, (b + x) % 65521)
Sum(D) == Adler(D, 1, 1, 0)
ZlibBegin(S) == IF Len(S) < 2 THEN "short"
                ELSE IF (S[1] * 256 + S[2]) % 31 # 0 \/ S[1] % 16 # 8 \/ S[1] \div 16 > 7 \/ (S[2] \div 32) % 2 = 1 THEN "bad" ELSE "ok"
Unzlib(S) ==
  IF ZlibBegin(S) # "ok" THEN R(ZlibBegin(S), 0, <<>>)
  ELSE LET T == SubSeq(S, 3, Len(S))
           b == Blocks(T, 0, <<>>)
           q == (b.p + 7) \div 8
           sum == IF b.st = "ok" /\ q + 4 <= Len(T) THEN SubSeq(T, q + 1, q + 4) ELSE <<>> IN
       IF b.st # "ok" THEN b
       ELSE IF sum = <<>> THEN R("short", 0, <<>>)
       ELSE IF sum # Sum(b.out) THEN R("bad", 0, <<>>)
       ELSE IF q + 4 < Len(T) THEN [b EXCEPT !.st = "more"] ELSE b

(* writers *)
RECURSIVE LowBits(_, _), HighBits(_, _)
LowBits(v, n) == IF n = 0 THEN <<>> ELSE <<v % 2>> \o LowBits(v \div 2, n - 1)
HighBits(v, n) == IF n = 0 THEN <<>> ELSE HighBits(v \div 2, n - 1) \o <<v % 2>>
Pack(b) == [i \in 1..((Len(b) + 7) \div 8) |->
             LET g(k) == LET j == 8 * (i - 1) + k IN IF j <= Len(b) THEN b[j] ELSE 0 IN
             g(1) + 2 * g(2) + 4 * g(3) + 8 * g(4) + 16 * g(5) + 32 * g(6) + 64 * g(7) + 128 * g(8)]
LitBits(c) == IF c < 144 THEN HighBits(48 + c, 8) ELSE IF c < 256 THEN HighBits(400 + c - 144, 9)
              ELSE IF c < 280 THEN HighBits(c - 256, 7) ELSE HighBits(192 + c - 280, 8)
\* tokens: [len |-> 0, c |-> octet] or [len |-> length, c |-> distance]
Largest(base, v) == CHOOSE k \in 1..Len(base) : base[k] <= v /\ (k = Len(base) \/ base[k + 1] > v)
TokenBits(t) == IF t.len = 0 THEN LitBits(t.c)
                ELSE LET k == Largest(LenBase, t.len)  d == Largest(DistBase, t.c) IN
                     LitBits(256 + k) \o LowBits(t.len - LenBase[k], LenExtra[k])
                     \o HighBits(d - 1, 5) \o LowBits(t.c - DistBase[d], DistExtra[d])
FixedBits(ts, last) == <<IF last THEN 1 ELSE 0, 1, 0>> \o FlattenSeq([i \in 1..Len(ts) |-> TokenBits(ts[i])]) \o LitBits(256)
StoredBits(before, d, last) ==
  LET h == <<IF last THEN 1 ELSE 0, 0, 0>>
      pad == [i \in 1..((8 - ((before + 3) % 8)) % 8) |-> 0] IN
  h \o pad \o LowBits(Len(d), 16) \o LowBits(65535 - Len(d), 16) \o FlattenSeq([i \in 1..Len(d) |-> LowBits(d[i], 8)])
Lits(d) == [i \in 1..Len(d) |-> [len |-> 0, c |-> d[i]]]
=============================================================================
