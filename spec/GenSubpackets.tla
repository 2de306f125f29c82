---------------------------- MODULE GenSubpackets ----------------------------
EXTENDS SubpacketPool
One == LET A == All IN [i \in 1..Len(A) |-> [op |-> "sub", f |-> A[i], octets |-> SubOctets(A[i]), key |-> "sub " \o ToString(<<A[i].ty, i>>)]]
\* whole areas: sequences of subpackets, and cut or padded ones
Small == <<[ty |-> 2, time |-> <<84, 0, 0, 1>>, crit |-> FALSE, form |-> 1], [ty |-> 16, keyid |-> R(8, 1), crit |-> TRUE, form |-> 5],
           [ty |-> 100, content |-> <<7, 7>>, crit |-> TRUE, form |-> 1], [ty |-> 27, flags |-> <<3, 1>>, crit |-> FALSE, form |-> 1],
           [ty |-> 11, list |-> R(250, 1), crit |-> FALSE, form |-> 2], [ty |-> 127, content |-> <<>>, crit |-> FALSE, form |-> 5],
           [ty |-> 20, flag |-> TRUE, name |-> <<110>>, ns |-> <<101>>, value |-> <<118>>, crit |-> FALSE, form |-> 1]>>
Pick(l) == CatAll([i \in 1..Len(l) |-> SubOctets(Small[l[i]])])
Lists2 == {<<>>} \cup {<<i>> : i \in 1..7} \cup {<<i, j>> : i, j \in 1..7} \cup {<<i, j, i>> : i, j \in 1..7}
          \cup (IF Big THEN {<<i, j, k>> : i, j, k \in 1..7} ELSE {})
Good == LET A == SetToSeq(Lists2) IN
        [i \in 1..Len(A) |-> [op |-> "areas", hashed |-> Pick(A[i]), unhashed |-> IF i % 3 = 0 THEN Pick(A[1 + ((i * 7) % Len(A))]) ELSE Pick(SubSeq(A[i], 2, Len(A[i]))),
                              key |-> "areas " \o ToString(A[i])]]
Base == Pick(<<1, 3>>)
Cuts == {SubSeq(Base, 1, k) : k \in 0..Len(Base)} \cup {Base \o x : x \in {<<0>>, <<1>>, <<200>>, <<192, 0>>, <<255, 0, 0, 0, 1>>, <<255, 0, 0, 0, 0>>, <<2, 100>>, <<255, 255, 255, 255, 255, 100>>, <<3, 2, 1>>,
          <<255, 0, 0, 0, 2, 100>>, <<224, 0, 100>>, <<1, 100>>, <<1, 228, 0>>, <<255>>, <<192>>}} \cup {x \o Base : x \in {<<0>>, <<0, 1, 100>>, <<0, 0>>, <<0, 2, 100>>, <<192, 0>>, <<255, 0, 0, 0, 0>>, <<255, 0, 0, 0, 0, 1, 100>>}}
         \cup {SubSeq(Pick(<<5, 2>>), 1, k) : k \in {0, 1, 2, 3, 100, 252, 253, 254, 255, 256, 260, 265, 266, 267}}
BadA == LET A == SetToSeq(Cuts) IN
        [i \in 1..Len(A) |-> [op |-> "areas", hashed |-> A[i], unhashed |-> <<>>, key |-> "cut hashed " \o ToString(i)]]
BadB == LET A == SetToSeq(Cuts) IN
        [i \in 1..Len(A) |-> [op |-> "areas", hashed |-> Base, unhashed |-> A[i], key |-> "cut unhashed " \o ToString(i)]]
Scen == One \o Good \o BadA \o BadB
ASSUME ndJsonSerialize(IOEnv.GEN_OUT, Scen)
VARIABLE x
Init == x = 0
Next == UNCHANGED x
=============================================================================
