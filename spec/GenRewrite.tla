----------------------------- MODULE GenRewrite -----------------------------
EXTENDS Keyring, SequencesExt, Json, IOUtils, TLC
Big == IOEnv.BIG = "1"
Hows == {"die", "half", "eio", "full", "short", "dead"}
O(d, k, v) == [do |-> d, k |-> k, v |-> v]
Starts == IF Big THEN {<<>>, <<"a">>, <<"a", "b">>, <<"b", "a">>, <<"c", "a", "d">>, <<"d", "c", "b", "a", "g">>, <<"f", "b", "e">>, <<"g", "b">>} ELSE {<<>>, <<"b", "a", "c">>, <<"a", "g">>}
Ks(s) == {s[i] : i \in 1..Len(s)}
\* every change the keyring allows
Ops(s) == {O("add", k, v) : k \in (IF Big THEN Keys ELSE {"b", "d"}) \ Ks(s), v \in {2}} \cup {O("update", k, v) : k \in Ks(s), v \in {1, 2}} \cup {O("delete", k, 1) : k \in Ks(s)}
Cases == UNION {{<<s, o, h>> : o \in Ops(s), h \in Hows} : s \in Starts}
Scen == LET A == SetToSeq(Cases) IN
  [j \in 1..Len(A) |->
     LET s == A[j][1] IN
     [kind |-> IF j % 3 = 0 THEN "secret" ELSE "public", start |-> [i \in 1..Len(s) |-> [k |-> s[i], v |-> ((i + (j \div 6)) % 2) + 1]], op |-> A[j][2], how |-> A[j][3],
      head |-> <<"new", "old", "mixed">>[(j % 3) + 1], mode |-> IF j % 2 = 0 THEN 384 ELSE 416, link |-> (j % 4 = 0), n |-> j,
      key |-> A[j][3] \o ": " \o A[j][2].do \o " " \o A[j][2].k \o ToString(A[j][2].v) \o " to" \o FoldSeq(LAMBDA x, y : y \o " " \o x, "", s)]]
ASSUME ndJsonSerialize(IOEnv.GEN_OUT, Scen)
VARIABLE x
Init == x = 0
Next == UNCHANGED x
=============================================================================
