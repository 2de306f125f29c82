------------------------------- MODULE GenIdea ------------------------------
EXTENDS Idea, FiniteSets, Json, IOUtils, TLC
Big == IOEnv.BIG = "1"
Special == IF Big THEN {0, 1, 2, 32767, 32768, 65534, 65535, 256} ELSE {0, 1, 32768, 65535}
W2(a) == <<a \div 256, a % 256>>
Flat(ws) == FlattenSeq([i \in 1..Len(ws) |-> W2(ws[i])])
Rnd(a) == (a * 75 + 74) % 65537
RECURSIVE Stream(_, _)
Stream(a, n) == IF n = 0 THEN <<>> ELSE <<a % 65536>> \o Stream(Rnd(a), n - 1)
BaseKey == Stream(4711, 8)
\* one and two special words in the key, and all blocks of special words
K1 == {[BaseKey EXCEPT ![i] = a] : i \in 1..8, a \in Special}
K2 == {[BaseKey EXCEPT ![p[1]] = a, ![p[2]] = b] : p \in {<<1, 4>>, <<5, 6>>, <<1, 5>>, <<4, 6>>, <<2, 3>>, <<7, 8>>, <<1, 8>>}, a \in Special, b \in Special}
KAll == {[i \in 1..8 |-> a] : a \in Special} \cup {[i \in 1..8 |-> IF i % 2 = 0 THEN a ELSE b] : a \in Special, b \in Special}
Blocks == {<<a, b, c, d>> : a \in Special, b \in Special, c \in Special, d \in Special}
FewBlocks == {<<0, 0, 0, 0>>, <<65535, 65535, 65535, 65535>>, Stream(99, 4), <<1, 32768, 0, 65535>>}
S(k, b) == [k |-> Flat(k), b |-> Flat(b)]
Sets == {S(k, b) : k \in K1 \cup K2 \cup KAll, b \in FewBlocks} \cup {S(k, b) : k \in {BaseKey, [i \in 1..8 |-> 0], <<0, 1, 0, 65535, 32768, 0, 0, 1>>}, b \in Blocks}
\* every word as a multiplicative key: 8192 keys hold all words once
Step == IF Big THEN 8 ELSE 32
Sweep == [j \in 1..(65536 \div Step) |-> LET a == (j - 1) * Step IN
           S([i \in 1..8 |-> (a + i - 1) % 65536], Stream(a * 3 + 17, 4))]
Random == [j \in 1..(IF Big THEN 4000 ELSE 300) |-> S(Stream(j * 57 + 3, 8), Stream(j * 91 + 8, 4))]
\* blocks whose words sweep through all values
Words1 == [j \in 1..(65536 \div (Step * 4)) |-> LET a == (j - 1) * Step * 4 IN S(BaseKey, <<a, a + 1, a + 2, a + 3>>)]
Scen == LET A == SetToSeq(Sets) \o Sweep \o Random \o Words1 IN [i \in 1..Len(A) |-> A[i] @@ [key |-> ToString(<<A[i].k, A[i].b>>)]]
ASSUME ndJsonSerialize(IOEnv.GEN_OUT, Scen)
VARIABLE x
Init == x = 0
Next == UNCHANGED x
=============================================================================
