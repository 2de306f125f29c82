------------------------------- MODULE Armor -------------------------------
(***************************************************************************)
(* ASCII armor (RFC 4880, section 6).  A text is a sequence of characters  *)
(* given by their code points; a line is a text without LF.  An armored    *)
(* object is a record [type, part, total, data, heads] where part/total    *)
(* are <<>> or <<n>> and heads is a sequence of <<name, value>> texts.     *)
(***************************************************************************)
EXTENDS Octets, FiniteSets
LF == 10
CR == 13
Dashes == <<45, 45, 45, 45, 45>>
BeginS == <<66, 69, 71, 73, 78, 32>>
EndS == <<69, 78, 68, 32>>
PartS == <<44, 32, 80, 65, 82, 84, 32>>
Kind == <<<<80, 71, 80, 32, 77, 69, 83, 83, 65, 71, 69>>,
          <<80, 71, 80, 32, 80, 85, 66, 76, 73, 67, 32, 75, 69, 89, 32, 66, 76, 79, 67, 75>>,
          <<80, 71, 80, 32, 80, 82, 73, 86, 65, 84, 69, 32, 75, 69, 89, 32, 66, 76, 79, 67, 75>>,
          <<80, 71, 80, 32, 83, 73, 71, 78, 65, 84, 85, 82, 69>>>>
Colon == <<58, 32>>
RECURSIVE Dec(_)
Dec(n) == IF n < 10 THEN <<48 + n>> ELSE Append(Dec(n \div 10), 48 + (n % 10))
Label(o) == Kind[o.type] \o (IF o.part = <<>> THEN <<>> ELSE
              PartS \o Dec(o.part[1]) \o (IF o.total = <<>> THEN <<>> ELSE <<47>> \o Dec(o.total[1])))
HeadLine(o) == Dashes \o BeginS \o Label(o) \o Dashes
TailLine(o) == Dashes \o EndS \o Label(o) \o Dashes
Head2(h) == h[1] \o Colon \o h[2]

\* ---- radix-64
B64(v) == IF v < 26 THEN 65 + v ELSE IF v < 52 THEN 71 + v ELSE IF v < 62 THEN v - 4
          ELSE IF v = 62 THEN 43 ELSE 47
Pad == 61
Un64(c) == IF c \in 65..90 THEN c - 65 ELSE IF c \in 97..122 THEN c - 71 ELSE IF c \in 48..57 THEN c + 4
           ELSE IF c = 43 THEN 62 ELSE IF c = 47 THEN 63 ELSE 64
Quad(s) == LET a == s[1]
               b == IF Len(s) > 1 THEN s[2] ELSE 0
               c == IF Len(s) > 2 THEN s[3] ELSE 0
               q == <<B64(a \div 4), B64((a % 4) * 16 + (b \div 16)), B64((b % 16) * 4 + (c \div 64)), B64(c % 64)>>
           IN SubSeq(q, 1, Len(s) + 1) \o [i \in 1..(3 - Len(s)) |-> Pad]
Radix64(d) == CatAll([i \in 1..((Len(d) + 2) \div 3) |->
                Quad(SubSeq(d, 3 * i - 2, IF 3 * i < Len(d) THEN 3 * i ELSE Len(d)))])
\* canonical radix-64 only
IsRadix(t) == /\ Len(t) % 4 = 0
              /\ LET p == Len(SelectSeq(t, LAMBDA c : c = Pad)) IN
                 /\ p \in {0, 1, 2}
                 /\ \A i \in 1..Len(t) : IF i <= Len(t) - p THEN Un64(t[i]) < 64 ELSE t[i] = Pad
UnQuad(q) == LET n == Len(SelectSeq(q, LAMBDA c : c # Pad))
                 v == [i \in 1..4 |-> IF q[i] = Pad THEN 0 ELSE Un64(q[i])]
             IN SubSeq(<<v[1] * 4 + (v[2] \div 16), (v[2] % 16) * 16 + (v[3] \div 4), (v[3] % 4) * 64 + v[4]>>, 1, n - 1)
UnRadix(t) == CatAll([i \in 1..(Len(t) \div 4) |-> UnQuad(Sub(t, 4 * i - 3, 4))])
CrcLine(d) == LET c == Crc24(d) IN
              <<Pad>> \o Radix64(<<c \div 65536, (c \div 256) % 256, c % 256>>)

\* ---- writing
Chunk(t, w) == [i \in 1..((Len(t) + w - 1) \div w) |->
                  SubSeq(t, w * (i - 1) + 1, IF w * i < Len(t) THEN w * i ELSE Len(t))]
Lines(o, w) == <<HeadLine(o)>> \o [i \in 1..Len(o.heads) |-> Head2(o.heads[i])]
               \o <<<<>>>> \o Chunk(Radix64(o.data), w) \o <<CrcLine(o.data), TailLine(o)>>
Join(ls, eol) == CatAll([i \in 1..Len(ls) |-> ls[i] \o eol])

\* ---- reading; the result is <<>> (refused) or <<object>>
RECURSIVE SplitLF(_, _)
SplitLF(t, cur) == IF t = <<>> THEN (IF cur = <<>> THEN <<>> ELSE <<cur>>)
                   ELSE IF Head(t) = LF THEN <<cur>> \o SplitLF(Tail(t), <<>>)
                   ELSE SplitLF(Tail(t), Append(cur, Head(t)))
NoCr(l) == IF l # <<>> /\ l[Len(l)] = CR THEN Front(l) ELSE l
TextLines(t) == LET ls == SplitLF(t, <<>>) IN [i \in 1..Len(ls) |-> NoCr(ls[i])]
Blank(l) == \A i \in 1..Len(l) : l[i] \in {32, 9}
IsCrcLine(l) == Len(l) = 5 /\ l[1] = Pad /\ IsRadix(Tail(l)) /\ l[5] # Pad
First(S) == CHOOSE x \in S : \A y \in S : x <= y
ReadLines(ls, o0, checked) ==
  \* o0 is an object with the expected label; other labels are refused here
  LET n == Len(ls)
      begin == {i \in 1..n : ~Blank(ls[i])}
  IN IF begin = {} THEN <<>> ELSE
  LET b == First(begin)
      blanks == {i \in (b + 1)..n : Blank(ls[i])}
      crcs == {i \in (b + 1)..n : ls[i] # <<>> /\ ls[i][1] = Pad}
  IN IF ls[b] # HeadLine(o0) \/ blanks = {} \/ crcs = {} THEN <<>> ELSE
  LET e == First(blanks)
      c == First(crcs)
      body == FlattenSeq(SubSeq(ls, e + 1, c - 1))
  IN IF c < e \/ c >= n \/ ~IsRadix(body) \/ ~IsCrcLine(ls[c]) THEN <<>>
     ELSE IF \/ checked /\ ls[c] # CrcLine(UnRadix(body))
             \/ ls[c + 1] # TailLine(o0) THEN <<>>
     ELSE <<UnRadix(body)>>
\* every single-character edit, and every cut
Edit(t, i, c) == [t EXCEPT ![i] = c]
=============================================================================
