----------------------------- MODULE GenStatus -----------------------------
EXTENDS Status, SequencesExt, Json, IOUtils, TLC
Big == IOEnv.BIG = "1"
S(k, b, a, l, bad, v) == [kind |-> k, by |-> b, at |-> a, life |-> l, bad |-> bad, val |-> 0, v |-> v]
Times == {2, 4, 6}
Plain == {S(k, b, a, l, FALSE, 4) : k \in {"c", "r", "x"}, b \in {"own", "sub", "other"}, a \in Times, l \in {0, 2, 6}}
Odd == {S(k, "own", a, 0, TRUE, 4) : k \in {"c", "r"}, a \in Times} \cup {S(k, "own", 0, 0, FALSE, 4) : k \in {"c", "r"}}
       \cup {S(k, b, a, 0, FALSE, 3) : k \in {"c", "r"}, b \in {"own", "other"}, a \in Times}
All == Plain \cup Odd
Own == {s \in All : s.by = "own" /\ s.kind # "x"}
Few(n, X) == LET q == SetToSeq(X) IN {q[j] : j \in {j \in 1..Len(q) : j % n = 1}}
\* longer lists: two threads through the alphabet
Alpha == SetToSeq(All)
OwnA == SetToSeq(Own)
At(q, j) == q[(j % Len(q)) + 1]
Long(n) == {<<At(OwnA, 7 * j), At(Alpha, 13 * j + j \div 5), At(OwnA, 5 * j + j \div 3)>> : j \in 1..n}
           \cup {<<At(Alpha, 3 * j), At(OwnA, 11 * j + j \div 7), At(OwnA, 17 * j + j \div 11), At(Alpha, 29 * j + j \div 2)>> : j \in 1..n}
           \cup {<<At(OwnA, j), At(OwnA, 3 * j + j \div 23), At(OwnA, 7 * j + j \div 13), At(OwnA, 11 * j + j \div 3), At(Alpha, 19 * j), At(OwnA, 23 * j)>> : j \in 1..(n \div 2)}
Lists == {<<>>} \cup {<<s>> : s \in All} \cup Few(IF Big THEN 1 ELSE 2, {<<s, t>> : s \in Own, t \in Own}) \cup Few(IF Big THEN 2 ELSE 11, {<<s, t>> : s \in All, t \in All}) \cup Long(IF Big THEN 2500 ELSE 500)
Valued(q) == [i \in 1..Len(q) |-> IF q[i].v < 4 THEN q[i] ELSE [q[i] EXCEPT !.val = i]]
Items == {<<"key", 4>>, <<"uid", 4>>, <<"uat", 4>>, <<"subkey", 4>>, <<"uid", 3>>, <<"key", 3>>}
NameOf(q) == LET RECURSIVE J(_)
                 J(p) == IF p = <<>> THEN "" ELSE LET s == Head(p) IN " " \o s.kind \o s.by \o ToString(s.at) \o (IF s.life # 0 THEN "+" \o ToString(s.life) ELSE "") \o (IF s.bad THEN "bad" ELSE "") \o (IF s.v < 4 THEN "v3" ELSE "") \o J(Tail(p)) IN J(q)
Scen == LET A == SetToSeq(UNION {{<<it, q>> : q \in IF it[2] = 4 THEN Lists ELSE Few(6, Lists)} : it \in Items}) IN
  [j \in 1..Len(A) |-> [item |-> A[j][1][1], version |-> A[j][1][2], sigs |-> Valued(A[j][2]), nows |-> <<6, 7, 8, 9, 10, 11, 12, 13>>, n |-> j,
                        key |-> A[j][1][1] \o " v" \o ToString(A[j][1][2]) \o NameOf(A[j][2])]]
ASSUME ndJsonSerialize(IOEnv.GEN_OUT, Scen)
VARIABLE x
Init == x = 0
Next == UNCHANGED x
=============================================================================
