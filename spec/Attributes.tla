----------------------------- MODULE Attributes -----------------------------
(***************************************************************************)
(* The items of a user attribute, as a program changes them.  An item is   *)
(*   [raw, rm, rd, m, d]                                                   *)
(* raw: the subpacket it was read from (<<>> if it was made), rm and rd    *)
(* the media type and data read from it, m and d those it has now.  What   *)
(* is written for an item nobody changed is what was read, to the octet.   *)
(***************************************************************************)
EXTENDS Naturals, Sequences
Zeros(n) == [j \in 1..n |-> 0]
LenOf(n) == IF n < 192 THEN <<n>> ELSE IF n < 8384 THEN <<((n - 192) \div 256) + 192, (n - 192) % 256>> ELSE <<255, n \div 16777216, (n \div 65536) % 256, (n \div 256) % 256, n % 256>>
Sub(t, body) == LenOf(Len(body) + 1) \o <<t>> \o body
Image(fmt, data) == <<16, 0, 1, fmt>> \o Zeros(12) \o data
IsImage(m) == m \in {"image/jpeg", "image/png", "image/gif"}
Format(m) == IF m = "image/jpeg" THEN 1 ELSE 101
\* the subpackets that octets are: each inside of what is there, and images
\* with the one header there is
Octet(s, j) == IF j <= Len(s) THEN s[j] ELSE 0
ImageBody(b) == Len(b) >= 16 /\ SubSeq(b, 1, 3) = <<16, 0, 1>> /\ \A j \in 5..16 : b[j] = 0
LenOctets(s) == IF s[1] = 255 THEN 5 ELSE IF s[1] >= 192 THEN 2 ELSE 1
LenValue(s) == CASE s[1] = 255 -> IF Octet(s, 2) + Octet(s, 3) > 0 THEN 65536 ELSE Octet(s, 4) * 256 + Octet(s, 5)
                 [] s[1] >= 192 -> (s[1] - 192) * 256 + Octet(s, 2) + 192
                 [] OTHER -> s[1]
RECURSIVE WellFormed(_)
WellFormed(s) == \/ s = <<>>
                 \/ LET h == LenOctets(s)  n == LenValue(s) IN
                    /\ n >= 1 /\ h + n <= Len(s)
                    /\ s[h + 1] = 1 => ImageBody(SubSeq(s, h + 2, h + n))
                    /\ WellFormed(SubSeq(s, h + n + 1, Len(s)))
Untouched(x) == x.raw # <<>> /\ x.m = x.rm /\ x.d = x.rd
CanWrite(x) == Untouched(x) \/ IsImage(x.m)
WriteItem(x) == IF Untouched(x) THEN x.raw ELSE Sub(1, Image(Format(x.m), x.d))
RECURSIVE WriteAll(_)
WriteAll(q) == IF q = <<>> THEN <<>> ELSE WriteItem(q[1]) \o WriteAll(Tail(q))
Made(m, d) == [raw |-> <<>>, rm |-> "", rd |-> <<>>, m |-> m, d |-> d]
\* read again from what was written
Jpg == <<255, 216, 255>>
Png4 == <<137, 80, 78, 71>>
Begins(d, h) == Len(d) >= Len(h) /\ SubSeq(d, 1, Len(h)) = h
\* what a reader may find the media type to be, of two
Means(x, m) == IF IsImage(x.m) /\ Format(x.m) = 1 THEN m = "image/jpeg"
               ELSE (Begins(x.d, Png4) => m = "image/png") /\ (Begins(x.d, Jpg) => m = "image/jpeg")
Reread(x, m) == [raw |-> WriteItem(x), rm |-> m, rd |-> x.d, m |-> m, d |-> x.d]

\* one step of a program: o is [op, j, m, d]
Has(q, j) == j \in 1..Len(q)
Without(q, j) == SubSeq(q, 1, j - 1) \o SubSeq(q, j + 1, Len(q))
Step(q, o) ==
  CASE o.op = "data" /\ Has(q, o.j) -> [q EXCEPT ![o.j].d = o.d]
    [] o.op = "mime" /\ Has(q, o.j) -> [q EXCEPT ![o.j].m = o.m]
    [] o.op = "back" /\ Has(q, o.j) -> [q EXCEPT ![o.j].d = q[o.j].rd, ![o.j].m = q[o.j].rm]
    [] o.op = "add" -> Append(q, Made(o.m, o.d))
    [] o.op = "del" /\ Has(q, o.j) -> Without(q, o.j)
    [] o.op = "turn" -> [k \in 1..Len(q) |-> q[Len(q) + 1 - k]]
    [] OTHER -> q
Fails(q, o) == o.op \in {"sign", "again"} /\ \E k \in 1..Len(q) : ~CanWrite(q[k])
=============================================================================
