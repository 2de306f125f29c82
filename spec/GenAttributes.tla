--------------------------- MODULE GenAttributes ---------------------------
(***************************************************************************)
(* Attributes read in any form, or made, and programs that change them.    *)
(***************************************************************************)
EXTENDS Attributes, FiniteSets, SequencesExt, Json, IOUtils, TLC
Big == IOEnv.BIG = "1"
Few(n, S) == LET s == SetToSeq(S) IN {s[j] : j \in {j \in 1..Len(s) : j % n = 1}}
R(n, k) == [j \in 1..n |-> (j * k) % 256]
Jpeg(n) == <<255, 216, 255, 224, 0, 16, 74, 70, 73, 70, 0, 1, 1>> \o R(n, 7)
Png(n) == <<137, 80, 78, 71, 13, 10, 26, 10, 0, 0, 0, 13, 73, 72, 68, 82, 0, 0, 0, 1, 0, 0, 0, 1, 8, 2, 0, 0, 0>> \o R(n, 3)
Long(t, body) == LET n == Len(body) + 1 IN <<255, 0, 0, n \div 256, n % 256, t>> \o body
Pool == <<Sub(1, Image(1, Jpeg(5))), Long(1, Image(1, Jpeg(5))), Sub(1, Image(1, <<>>)), Sub(1, Image(1, Png(4))), Sub(1, Image(101, Png(4))), Sub(1, Image(110, Jpeg(3))), Sub(1, Image(1, Jpeg(170))),
          Sub(1, Image(1, Jpeg(9000))), Sub(2, <<1, 2, 3>>), Sub(100, Jpeg(9)), Long(1, Image(100, Png(8))), Sub(1, Image(1, R(162, 5))), Sub(1, Image(1, R(163, 5))), Sub(255, <<>>), Sub(1, Image(1, Jpeg(2) \o Zeros(3))), Sub(101, Zeros(2) \o Jpeg(2) \o Zeros(2)), Sub(1, Image(1, Zeros(4) \o <<10, 13, 10>>))>>
Datas == <<Jpeg(2), Png(6), Jpeg(162), R(163, 11), <<>>, Jpeg(17000), Jpeg(66000)>>
Mimes == <<"image/jpeg", "image/png", "image/gif", "text/plain">>
O(op, j, m, v) == [op |-> op, j |-> j, m |-> IF m = 0 THEN "" ELSE Mimes[m], d |-> IF v = 0 THEN <<>> ELSE Datas[v], t |-> op \o ToString(j) \o "." \o ToString(m) \o "." \o ToString(v)]
Changes == {O("data", j, 0, v) : j \in {1, 2}, v \in {1, 2}} \cup {O("mime", j, m, 0) : j \in {1, 2}, m \in {1, 2, 4}} \cup {O("back", j, 0, 0) : j \in {1, 2}}
           \cup {O("add", 0, m, v) : m \in {1, 2}, v \in {1, 2}} \cup {O("del", j, 0, 0) : j \in {1, 2}} \cup {O("turn", 0, 0, 0), O("sign", 0, 0, 0), O("again", 0, 0, 0)}
Starts == {<<p>> : p \in 1..Len(Pool)} \cup {<<1, 4>>, <<2, 9>>, <<10, 5, 1>>}
Seqs(n) == [1..n -> Changes]
Sensible(w) == \A j \in 1..(Len(w) - 1) : w[j].op \in {"turn", "sign", "again"} => w[j + 1].op # w[j].op
Progs == {w \in Seqs(1) : TRUE} \cup {w \in Seqs(2) : Sensible(w)}
Tail3 == <<O("sign", 0, 0, 0), O("again", 0, 0, 0)>>
Hists == {<<s, w>> : s \in Starts, w \in Seqs(1) \cup {<<>>}}
  \cup {<<s, w>> : s \in {<<2>>, <<1, 4>>, <<2, 9>>}, w \in IF Big THEN Progs ELSE Few(2, Progs)}
  \cup {<<s, w>> : s \in {<<2, 5>>}, w \in Few(IF Big THEN 5 ELSE 29, {w \in Seqs(3) : Sensible(w)})}
  \cup {<<<<>>, <<O("add", 0, m, v)>> \o w>> : m \in 1..4, v \in 1..6, w \in {<<>>, Tail3}}
  \cup {<<<<>>, <<O("add", 0, 1, 7)>> \o Tail3>>}
  \cup {<<<<>>, <<O("add", 0, 1, v), O("add", 0, 2, 2)>> \o w>> : v \in {1, 3}, w \in IF Big THEN Seqs(2) ELSE Seqs(1)}
\* octets that may not be subpackets: cut, padded, or with another octet
Alter(s) == {SubSeq(s, 1, k) : k \in 1..(Len(s) - 1)} \cup {[s EXCEPT ![k] = v] : k \in 1..(IF Len(s) < 20 THEN Len(s) ELSE 20), v \in {0, 1, 16, 17, 255}}
            \cup {s \o x : x \in {<<0>>, <<1>>, <<3, 2, 1>>, <<192, 0>>, <<255, 0, 0, 0, 1>>, <<255, 0, 1, 0, 2, 2>>, <<255, 255, 255, 255, 255, 100>>, <<2, 1, 16>>, <<1, 1>>, <<1, 2>>, <<2, 2, 0>>}}
            \cup {x \o s : x \in {<<0>>, <<0, 1, 100>>, <<1, 2>>, <<2, 2, 0>>, <<3>>}}
Altered == (UNION {Alter(s) : s \in {Pool[1], Pool[2], Pool[9] \o Pool[3], Pool[3] \o Pool[9]}}) \cup {<<0>>, <<1>>, <<255>>, <<192>>}
           \cup {SubSeq(Pool[7], 1, k) : k \in {1, 2, 3, 17, 18, 19, 100, 185, 186}} \cup {[Pool[7] EXCEPT ![k] = v] : k \in 1..20, v \in {0, 1, 193}}
RECURSIVE Txt(_)
Txt(w) == IF w = <<>> THEN "" ELSE w[1].t \o " " \o Txt(Tail(w))
Start(s) == [j \in 1..Len(s) |-> Pool[s[j]]]
Nums(s) == IF s = <<>> THEN "made" ELSE FoldLeft(LAMBDA a, b : a \o ToString(b) \o " ", "read ", s)
Scen == LET A == SetToSeq(Hists) IN [j \in 1..Len(A) |-> [kind |-> "use", start |-> Start(A[j][1]), ops |-> A[j][2], n |-> j, key |-> Nums(A[j][1]) \o ": " \o Txt(A[j][2])]]
        \o LET B == SetToSeq({s \in Altered : s # <<>>}) IN [j \in 1..Len(B) |-> [kind |-> "form", start |-> <<B[j]>>, ops |-> <<>>, n |-> j, key |-> "octets " \o ToString(B[j])]]
ASSUME ndJsonSerialize(IOEnv.GEN_OUT, Scen)
VARIABLE x
Init == x = 0
Next == UNCHANGED x
=============================================================================
