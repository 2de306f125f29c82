----------------------------- MODULE GenCanon -----------------------------
EXTENDS Signing, FiniteSets, FiniteSetsExt, Functions, Json, IOUtils, TLC
Big == IOEnv.BIG = "1"
\* the same lines with other endings
Rejoin(ls, e) == FoldLeft(LAMBDA a, l : a \o e \o l, Head(ls), Tail(ls))
DropAt(s, j) == SubSeq(s, 1, j - 1) \o SubSeq(s, j + 1, Len(s))
InsAt(s, j, x) == SubSeq(s, 1, j - 1) \o x \o SubSeq(s, j, Len(s))
Variants(s) ==
  LET ls == Lines(s) IN
  {Rejoin(ls, e) : e \in {<<10>>, <<13>>, <<13, 10>>}} \cup {Canon(s)}
  \cup {DropAt(s, j) : j \in {1, Len(s), Len(s) \div 2 + 1} \cap (1..Len(s))}
  \cup {InsAt(s, j, x) : j \in {1, Len(s) + 1, Len(s) \div 2 + 1}, x \in {<<10>>, <<13>>, <<32>>}}
  \cup {[s EXCEPT ![j] = IF @ = 98 THEN 97 ELSE 98] : j \in {1, Len(s)} \cap (1..Len(s))}
Short == UNION {[1..n -> {10, 13, 97}] : n \in 0..(IF Big THEN 7 ELSE 4)}
Odd == UNION {[1..n -> {10, 13, 97, 32}] : n \in IF Big THEN 3..5 ELSE {3}}
U8 == {<<194, 133>>, <<226, 128, 168>>, <<195, 169>>, <<240, 159, 152, 128>>, <<9>>, <<11>>, <<12>>, <<0>>, <<28>>, <<30>>, <<127>>, <<45, 32>>}
Words == {<<97>> \o u \o <<10, 98>> : u \in U8} \cup {u \o <<13>> \o u : u \in U8} \cup {<<13, 10>> \o u \o <<13, 10>> \o u : u \in U8}
         \cup {<<97, 32, 9>> \o e \o <<98, 32>> : e \in {<<10>>, <<13>>, <<13, 10>>, <<10, 13>>, <<13, 13, 10>>}}
\* octets that are no UTF-8
Raw == {<<255, 10, 254>>, <<200>>, <<13, 195>>, <<128, 13, 10, 129, 10>>, <<195, 10, 169>>}
Long == {[j \in 1..n |-> IF j % k = 0 THEN 10 ELSE IF j % (k + 1) = 0 THEN 13 ELSE 97 + (j % 26)] : n \in {200, 1000}, k \in {7, 64}}
Scen == LET A == SetToSeq(Short \cup Odd \cup Words) \o SetToSeq(Raw) \o SetToSeq(Long)
            nr == Cardinality(Short \cup Odd \cup Words) IN
  [j \in 1..Len(A) |->
    LET s == A[j]  V == SetToSeq(Variants(s) \cup {s}) IN
    [text |-> s, canon |-> Canon(s), utf8 |-> ~(j > nr /\ j <= nr + Cardinality(Raw)),
     variants |-> V, key |-> "text " \o ToString(IF Len(s) > 30 THEN <<Len(s), s[1], s[7], s[8]>> ELSE s)]]
ASSUME ndJsonSerialize(IOEnv.GEN_OUT, Scen)
VARIABLE x
Init == x = 0
Next == UNCHANGED x
=============================================================================
