---------------------------- MODULE GenMessage ----------------------------
EXTENDS Message, FiniteSets, Json, IOUtils, TLC
Big == IOEnv.BIG = "1"
\* ---- packet sequences to read
Basic == {Lit, Comp(<<Lit>>), Sig(1), Sig(2), Ops(1, 1), Ops(1, 0), Ops(2, 1), Esk("pk"), Esk("sk"), Data(TRUE, <<Lit>>), Mark}
Odd == {Comp(<<Lit, Lit>>), Comp(<<>>), Comp(<<Mark, Lit, Mark>>), Comp(<<Sig(2), Lit>>), Comp(<<Data(TRUE, <<Lit>>)>>), Data(FALSE, <<Lit>>), Data(TRUE, <<Lit, Sig(1)>>),
        Data(TRUE, <<>>), Data(TRUE, <<Ops(1, 1), Comp(<<Lit>>), Sig(1)>>), Pk("uid", 0, 0, <<>>), Pk("pub", 0, 0, <<>>), Pk("mdc", 0, 0, <<>>), Pk("trust", 0, 0, <<>>)}
Alphabet == Basic \cup Odd
Seqs(n, A) == [1..n -> A]
Few(n, S) == LET q == SetToSeq(S) IN {q[j] : j \in {j \in 1..Len(q) : j % n = 1}}
Kinds == {LComp, LSig(TRUE, <<1>>), LSig(TRUE, <<2, 1>>), LSig(TRUE, <<1, 2, 3>>), LSig(FALSE, <<3>>), LSig(FALSE, <<1, 2>>), LEnc(TRUE, <<"pk">>), LEnc(TRUE, <<"sk">>), LEnc(FALSE, <<"pk">>),
          LEnc(FALSE, <<"sk">>), LEnc(TRUE, <<"pk", "pk">>), LEnc(TRUE, <<"sk", "pk">>), LEnc(FALSE, <<>>), LEnc(TRUE, <<>>)}
Composed(n) == UNION {[1..m -> Kinds] : m \in 0..n}
\* one packet dropped, repeated, exchanged with the next or put before
Mutate(s) == {SubSeq(s, 1, j - 1) \o SubSeq(s, j + 1, Len(s)) : j \in 1..Len(s)} \cup {SubSeq(s, 1, j) \o SubSeq(s, j, Len(s)) : j \in 1..Len(s)}
             \cup {[s EXCEPT ![j] = s[j + 1], ![j + 1] = s[j]] : j \in 1..(Len(s) - 1)} \cup {SubSeq(s, 1, j) \o <<p>> \o SubSeq(s, j + 1, Len(s)) : p \in {Lit, Mark, Sig(1), Esk("pk")}, j \in 0..Len(s)}
             \cup {[s EXCEPT ![j].last = 1 - @] : j \in {j \in 1..Len(s) : s[j].t = "ops"}} \cup {[s EXCEPT ![j].id = IF @ = 1 THEN 2 ELSE 1] : j \in {j \in 1..Len(s) : s[j].t \in {"ops", "sig"}}}
             \cup {[s EXCEPT ![j].in = @ \o <<Lit>>] : j \in {j \in 1..Len(s) : s[j].in # <<>>}} \cup {[s EXCEPT ![j].in = Tail(@)] : j \in {j \in 1..Len(s) : s[j].in # <<>>}}
\* one-pass signatures that differ from the signature in one field
OddOps == UNION {{<<Ops(x, 1), Lit, Sig(x % 10)>>, <<Ops(x, 0), Ops(2, 1), Lit, Sig(2), Sig(x % 10)>>, <<Ops(2, 0), Ops(x, 1), Lit, Sig(x % 10), Sig(2)>>,
                  <<Ops(2, 0), Ops(1, 0), Ops(x, 1), Comp(<<Lit>>), Sig(x % 10), Sig(1), Sig(2)>>, <<Comp(<<Ops(x, 1), Lit, Sig(x % 10)>>)>>, <<Ops(x, 1), Ops(1, 1), Lit, Sig(1), Sig(x % 10)>>}
                 : x \in {10 * o + w : o \in 1..5, w \in {1, 3}} \cup {12}}
Legals == {Write(L) : L \in Composed(2)}
Reads == {<<>>} \cup Seqs(1, Alphabet) \cup Seqs(2, Alphabet) \cup Seqs(3, Basic) \cup (IF Big THEN Seqs(3, Alphabet) \cup Seqs(4, Basic) ELSE Few(17, Seqs(4, Basic)))
         \cup OddOps \cup Legals \cup UNION {Mutate(s) : s \in IF Big THEN Legals ELSE Few(5, Legals) \cup {Write(L) : L \in Composed(1)}}
\* ---- compositions to make, with each kind of literal
Lits == <<[fmt |-> 98, name |-> <<102>>, time |-> <<83, 114, 78, 2>>, data |-> <<0, 255, 13, 10, 10>>],
          [fmt |-> 117, name |-> <<195, 169, 46, 116>>, time |-> <<83, 114, 78, 3>>, data |-> <<97, 195, 169, 13, 10, 226, 130, 172, 10, 13>>],
          [fmt |-> 116, name |-> <<>>, time |-> <<0, 0, 0, 0>>, data |-> <<104, 233, 13, 10, 10>>],
          [fmt |-> 98, name |-> <<95, 67, 79, 78, 83, 79, 76, 69>>, time |-> <<255, 255, 255, 255>>, data |-> <<>>],
          [fmt |-> 108, name |-> <<102>>, time |-> <<127, 255, 255, 255>>, data |-> <<1, 2, 3>>],
          [fmt |-> 49, name |-> <<255, 254>>, time |-> <<128, 0, 0, 0>>, data |-> <<200, 13>>],
          [fmt |-> 117, name |-> [j \in 1..255 |-> 97], time |-> <<0, 0, 0, 1>>, data |-> <<>>],
          [fmt |-> 98, name |-> <<0, 47, 10>>, time |-> <<83, 114, 78, 2>>, data |-> [j \in 1..700 |-> (j * 7) % 256]]>>
Makes == Composed(2) \cup (IF Big THEN Composed(3) ELSE Few(9, Composed(3)))
Key(s) == LET RECURSIVE K(_)
              K(q) == IF q = <<>> THEN "" ELSE LET p == Head(q) IN p.t \o (IF p.id > 0 THEN ToString(p.id) ELSE "") \o (IF p.t = "ops" THEN "/" \o ToString(p.last) ELSE "")
                                               \o (IF p.in = <<>> THEN "" ELSE "(" \o K(p.in) \o ")") \o " " \o K(Tail(q))
          IN K(s)
\* sequences in which a one-pass signature names another key than it should
RECURSIVE HasOdd(_)
HasOdd(s) == \/ \E j \in 1..Len(s) : s[j].t = "ops" /\ s[j].id > 40
             \/ \E j \in 1..Len(s) : s[j].in # <<>> /\ HasOdd(s[j].in)
Scen == LET R == SetToSeq(Reads)  M == SetToSeq(Makes)  N == SetToSeq({<<L, j>> : L \in Composed(IF Big THEN 1 ELSE 0) , j \in 1..Len(Lits)}) IN
  [j \in 1..Len(R) |-> [kind |-> "read", named |-> ~HasOdd(R[j]), toks |-> R[j], layers |-> <<>>, lit |-> Lits[(j % Len(Lits)) + 1], n |-> j, key |-> "read " \o Key(R[j])]]
  \o [j \in 1..Len(M) |-> [kind |-> "make", toks |-> <<>>, layers |-> M[j], lit |-> Lits[((j + (j \div 7)) % Len(Lits)) + 1], n |-> j, key |-> "make " \o Key(Write(M[j]))]]
  \o [j \in 1..Len(N) |-> [kind |-> "make", toks |-> <<>>, layers |-> N[j][1], lit |-> Lits[N[j][2]], n |-> j, key |-> "make literal " \o ToString(N[j][2]) \o " " \o Key(Write(N[j][1]))]]
ASSUME ndJsonSerialize(IOEnv.GEN_OUT, Scen)
VARIABLE x
Init == x = 0
Next == UNCHANGED x
=============================================================================
