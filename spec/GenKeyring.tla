----------------------------- MODULE GenKeyring -----------------------------
EXTENDS Keyring, SequencesExt, Json, IOUtils, TLC
Big == IOEnv.BIG = "1"
O(d, k, v) == [do |-> d, k |-> k, v |-> v]
Changes == {O(d, k, v) : d \in {"add", "update"}, k \in Keys, v \in {1, 2}} \cup {O("delete", k, v) : k \in Keys, v \in {1, 2}}
Rare == {O("peer add", k, v) : k \in Keys, v \in {1, 2}} \cup {O("peer delete", k, 1) : k \in Keys} \cup {O("reopen", "a", 1), O("junk", "a", 1)}
Starts == {<<>>, <<"a">>, <<"b", "a">>, <<"a", "b">>, <<"c", "d">>, <<"d", "c">>, <<"e", "f">>, <<"f", "c", "e">>, <<"g", "a">>, <<"a", "g">>, <<"g">>,
           <<"c", "e", "d", "f", "b", "g", "a">>, <<"a", "b", "c", "d", "e", "f", "g">>, <<"g", "f", "e", "d", "c", "b", "a">>}
StartSeq == SetToSeq(Starts)
C == SetToSeq(Changes)
R == SetToSeq(Rare)
At(q, j) == q[(j % Len(q)) + 1]
Pick(j) == IF j % 4 = 3 THEN At(R, j \div 4) ELSE At(C, j)
\* every change of every starting content
Ones == {<<s, <<o>>>> : s \in 1..Len(StartSeq), o \in Changes}
\* histories through the alphabet; steps that are prime to its size
Path(j, len) == [i \in 1..len |-> Pick((j * (2 * i + 3)) + (j * i) \div 7 + 11 * i)]
Threads == {<<(j % Len(StartSeq)) + 1, Path(j, 2 + (j % 5))>> : j \in 1..(IF Big THEN 3000 ELSE 320)}
\* the same keys again and again
Hot(j, len) == LET ks == At(<<<<"c", "d">>, <<"a", "g">>, <<"e", "f">>, <<"c", "e">>, <<"a", "b">>, <<"b", "b">>>>, j)
                   f(i) == (j * (i + 2) + (j * i) \div 5 + (j \div 3) * i * i) IN
               [i \in 1..len |-> O(At(<<"add", "update", "delete", "add", "update", "delete", "add", "delete", "peer add", "reopen", "peer delete">>, f(i)), ks[((f(i) \div 11) % 2) + 1], ((f(i) \div 3) % 2) + 1)]
Hots == {<<(j % 7) + 1, Hot(j, 3 + (j % 4))>> : j \in 1..(IF Big THEN 2000 ELSE 220)}
Kinds == <<"public", "secret", "public dbm", "secret dbm">>
Some(S, n, m) == LET q == SetToSeq(S) IN {q[j] : j \in {j \in 1..Len(q) : j % n = m}}
Cases == {<<t, 1>> : t \in Some(Ones, 2, 1)} \cup {<<t, 2>> : t \in Some(Ones, 2, 0)} \cup {<<t, 3>> : t \in Some(Ones, 11, 1)} \cup {<<t, 4>> : t \in Some(Ones, 13, 2)}
         \cup {<<t, IF Len(t[2]) % 2 = 0 THEN 1 ELSE 2>> : t \in Threads \cup Hots} \cup {<<t, 3>> : t \in Some(Threads \cup Hots, 5, 2)} \cup {<<t, 4>> : t \in Some(Threads \cup Hots, 7, 3)}
         \cup (IF Big THEN Ones \X {1, 2, 3, 4} ELSE {})
\* which of three objects acts, one of them by another name of the file; the last one may be read-only
Scen == LET A == SetToSeq(Cases) IN
  [j \in 1..Len(A) |->
     LET s == StartSeq[A[j][1][1]]  ops == A[j][1][2] IN
     [kind |-> Kinds[A[j][2]], start |-> [i \in 1..Len(s) |-> [k |-> s[i], v |-> ((i + j) % 2) + 1]], head |-> At(<<"new", "old", "mixed">>, j),
      ops |-> [i \in 1..Len(ops) |-> [do |-> ops[i].do, k |-> ops[i].k, v |-> ops[i].v, by |-> ((i * (j + 1) + j) % 3) + 1]],
      readonly |-> IF j % 5 = 0 THEN 3 ELSE 0, n |-> j,
      key |-> Kinds[A[j][2]] \o " " \o FoldSeq(LAMBDA x, y : y \o x, "", s) \o FoldSeq(LAMBDA x, y : y \o " " \o x.do \o " " \o x.k \o ToString(x.v), "", ops) \o (IF j % 5 = 0 THEN " ro" ELSE "") \o " #" \o ToString(j % 3)]]
ASSUME ndJsonSerialize(IOEnv.GEN_OUT, Scen)
VARIABLE x
Init == x = 0
Next == UNCHANGED x
=============================================================================
