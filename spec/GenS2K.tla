------------------------------- MODULE GenS2K -------------------------------
EXTENDS S2K, FiniteSets, Json, IOUtils
Big == IOEnv.BIG = "1"
R(n, k) == [i \in 1..n |-> (i * 31 + k * 17) % 256]
Hashes == DOMAIN HashLen
Ciphers == DOMAIN KeyLen
Salts == {R(8, 3), Zeros(8), <<255, 0, 1, 2, 3, 4, 5, 0>>}
PLens == {0, 1, 7, 8, 9, 55, 56, 57, 63, 64, 65, 120, 128, 1015, 1016, 1017, 1024, 1500}
S(k, h, salt, c) == [k |-> k, hash |-> h, salt |-> salt, count |-> c]
Simple == {<<S(0, h, <<>>, 0), R(n, n), c>> : h \in Hashes, c \in Ciphers, n \in PLens}
Salted == {<<S(1, h, s, 0), R(n, n), c>> : h \in Hashes, c \in IF Big THEN Ciphers ELSE {2, 3, 9}, n \in PLens, s \in IF Big THEN Salts ELSE {R(8, 3)}}
Iter == {<<S(3, h, R(8, 5), cc), R(n, n), c>> : h \in Hashes, c \in {2, 7, 9, 10}, n \in IF Big THEN PLens ELSE {0, 8, 64, 1015, 1016, 1017, 1500}, cc \in {0, 1, 16}}
\* every count, with passphrases that make a few big units
Counts == {<<S(3, h, R(8, 5), cc), R(4088 - h, cc), 9>> : h \in IF Big THEN {1, 2, 8} ELSE {2}, cc \in 0..(IF Big THEN 255 ELSE 176)}
          \cup {<<S(3, 8, R(8, 5), cc), R(n, n), 8>> : cc \in {31, 96, 100, 127}, n \in {0, 5, 12}}
          \cup {<<S(3, 1, R(8, 5), cc), R(n, n), 9>> : cc \in {0, 2, 15, 17, 40}, n \in 1008..1028}
All == SetToSeq(Simple) \o SetToSeq(Salted) \o SetToSeq(Iter) \o SetToSeq(Counts)
Scen == LET A == All IN
        [i \in 1..Len(A) |-> [s2k |-> A[i][1], pass |-> A[i][2], cipher |-> A[i][3], inputs |-> Inputs(A[i][1], A[i][2], A[i][3]),
                              key |-> "s2k " \o ToString(<<A[i][1], Len(A[i][2]), A[i][3]>>)]]
ASSUME ndJsonSerialize(IOEnv.GEN_OUT, Scen)
VARIABLE x
Init == x = 0
Next == UNCHANGED x
=============================================================================
