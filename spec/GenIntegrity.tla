--------------------------- MODULE GenIntegrity ---------------------------
(***************************************************************************)
(* Every alteration of the protected data, by position.  The protected     *)
(* data is the packet's body: a version octet, then prefix, packets and    *)
(* detection code, encrypted.                                              *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt, Json, IOUtils, TLC
Big == IOEnv.BIG = "1"
Block(c) == IF c \in {1, 2, 3, 4} THEN 8 ELSE 16
Ciphers == {1, 2, 3, 4, 7, 8, 9, 10, 11, 12, 13}
\* a literal packet of n octets of text, named "f", short length form
PlainLen(n) == IF n + 7 < 192 THEN n + 9 ELSE n + 10
BodyLen(c, n) == 1 + Block(c) + 2 + PlainLen(n) + 22
A(op, a, b) == [op |-> op, a |-> a, b |-> b]
Attacks(c, n) ==
  LET L == BodyLen(c, n)  B == Block(c)  K == (L - 1) \div B
      Full == Big \/ (c = 9 /\ n < 100) \/ c = 3
      Bits == IF Full THEN 0..7 ELSE {0, 7}
      Pos == IF ~Full /\ ~(c \in {2, 11}) THEN {p \in 1..L : p < 4 \/ p > L - 24 \/ p \in B..(B + 5) \/ p % 5 = 0}
             ELSE IF L < 200 THEN 1..L ELSE {p \in 1..L : p < 60 \/ p > L - 60 \/ p % 9 = 0} IN
  {A("none", 0, 0)}
  \cup {A("flip", p, b) : p \in Pos, b \in Bits}
  \cup {A("cut", p, 0) : p \in Pos} \cup {A("cut front", p, 0) : p \in 1..(3 * B)} \cup {A("remove", p, 1) : p \in Pos} \cup {A("repeat", p, 1) : p \in Pos} \cup {A("insert", p, x) : p \in Pos, x \in {0, 211}}
  \cup {A("append", p, x) : p \in {1, 2, 8, 16, 20, 21, 22, 23, 64}, x \in {0, 85}} \cup {A("append tail", p, 0) : p \in 1..L}
  \cup {A("append", 1, x) : x \in 0..255} \cup {A("append crlf", p, 0) : p \in 1..2} \cup {A("insert", 0, x) : x \in 0..3}
  \cup {A("swap blocks", p, q) : p \in 0..(K - 1), q \in 0..(K - 1)} \cup {A("repeat block", p, q) : p \in 0..(K - 1), q \in 0..(K - 1)} \cup {A("remove blocks", p, q) : p \in 0..(K - 1), q \in 1..2}
  \cup {A("two", p, q) : p \in {p \in Pos : p % (IF Full THEN 5 ELSE 11) = 0}, q \in {q \in Pos : q % (IF Full THEN 7 ELSE 9) = 0}} \cup {A("reverse", p, 0) : p \in {2, B, L - 1}} \cup {A("zero", p, 0) : p \in Pos} \cup {A("twice", 0, 0)}
  \* the end of another message to the same session key
  \cup {A("graft", p, 0) : p \in Pos} \cup {A("graft front", p, 0) : p \in Pos}
Texts == IF Big THEN {0, 1, 5, 14, 30, 700} ELSE {5, 30}
Scen == LET Q == SetToSeq(({<<c, n, by>> : c \in Ciphers, n \in Texts, by \in {"lib", "peer"}} \ (IF Big THEN {} ELSE {<<c, n, "peer">> : c \in Ciphers \ {2, 4, 7, 9}, n \in Texts})) \cup {<<9, 700, "lib">>, <<9, 700, "peer">>, <<2, 0, "peer">>}) IN
  [j \in 1..Len(Q) |-> [cipher |-> Q[j][1], text |-> Q[j][2], by |-> Q[j][3], len |-> BodyLen(Q[j][1], Q[j][2]), attacks |-> SetToSeq(Attacks(Q[j][1], Q[j][2])), n |-> j,
                        key |-> Q[j][3] \o " cipher " \o ToString(Q[j][1]) \o " text " \o ToString(Q[j][2])]]
ASSUME ndJsonSerialize(IOEnv.GEN_OUT, Scen)
VARIABLE x
Init == x = 0
Next == UNCHANGED x
=============================================================================
