----------------------------- MODULE GenOctets -----------------------------
EXTENDS Octets, Json, IOUtils, TLC
Big == IOEnv.BIG = "1"
\* 2^k, 2^k - 1 and 2^k + 1 as octets
P2(k) == <<2 ^ (k % 8)>> \o Zeros(k \div 8)
P2m1(k) == (IF k % 8 = 0 THEN <<>> ELSE <<2 ^ (k % 8) - 1>>) \o [i \in 1..(k \div 8) |-> 255]
P2p1(k) == IF k = 0 THEN <<2>> ELSE
           LET p == P2(k) IN [p EXCEPT ![Len(p)] = @ + 1]
\* a 1 followed by alternating octets
Mix(k) == [i \in 1..(1 + k \div 8) |-> IF i = 1 THEN 2 ^ (k % 8) ELSE (i * 89) % 256]
Ks == (0..130) \cup {k \in 131..(IF Big THEN 4200 ELSE 2200) : Big \/ k % 8 \in {0, 7} \/ k % 61 = 0}
Vals == UNION {{P2(k), P2m1(k), P2p1(k), Mix(k)} : k \in Ks} \cup {<<>>}
Pre == <<7, 0>>
Mpis == {[kind |-> "mpi", v |-> n, post |-> p, key |-> "mpi bits " \o ToString(BitLen(n))] :
           n \in Vals, p \in {<<>>, <<255, 0, 3>>}}
Edge == {[kind |-> "mpi", v |-> P2m1(k), post |-> <<>>, key |-> "mpi bits " \o ToString(k)] :
           k \in {65528, 65535}}
Refuse == {[kind |-> "mpirefuse", k |-> k, key |-> "mpi refuse " \o ToString(k)] : k \in {0, 65536, 65537}}
ReadOnly == {[kind |-> "mpiread", d |-> d, key |-> "mpi read " \o ToString(d)] :
   d \in {<<0, 9, 0, 1>>, <<0, 8, 1>>, <<0, 1, 0>>, <<0, 17, 0, 0, 0>>, <<0, 9, 1>>,
          <<0, 16, 255>>, <<0>>, <<1, 0, 1>>}}
Counts == {[kind |-> "count", c |-> c, key |-> "count " \o ToString(c)] : c \in Byte}
BadCounts == {[kind |-> "badcount", v |-> v, key |-> "badcount " \o ToString(v)] :
   v \in {0, 1, 1023, 65011713, 66060288, 1000000000} \cup UNION {{CountOf(c) - 1, CountOf(c) + 1} : c \in Byte}}
Fixed == {[kind |-> "fixed", w |-> w, v |-> n, key |-> "fixed " \o ToString(<<w, n>>)] :
   <<w, n>> \in {<<w, n>> \in {1, 2, 4, 8} \X (UNION {{P2(k), P2m1(k), Mix(k)} : k \in 0..63} \cup {<<>>}) :
        Len(n) <= w}}
HexS == {[kind |-> "hex", v |-> n, size |-> z, key |-> "hex " \o ToString(<<BitLen(n), z>>)] :
   n \in UNION {{P2(k), P2m1(k), Mix(k)} : k \in (0..40) \cup {63, 64, 65, 127, 128, 159, 160, 200}},
   z \in {8, 16, 40}}
HexB == {[kind |-> "hexb", v |-> [i \in 1..n |-> (i * 53 + n) % 256], off |-> o,
          key |-> "hexb " \o ToString(<<n, o>>)] : n \in 0..24, o \in {0, 1, 5}}
Crcs == {[kind |-> "crc", v |-> [i \in 1..n |-> (i * m + n) % 256], key |-> "crc " \o ToString(<<n, m>>)] :
   n \in 0..40, m \in {0, 1, 37, 255}}
   \cup {[kind |-> "crc", v |-> <<b>>, key |-> "crc1 " \o ToString(b)] : b \in Byte}
Scen == SetToSeq(Mpis \cup Edge) \o SetToSeq(Refuse) \o SetToSeq(ReadOnly) \o SetToSeq(Counts)
        \o SetToSeq(BadCounts) \o SetToSeq(Fixed) \o SetToSeq(HexS) \o SetToSeq(HexB) \o SetToSeq(Crcs)
ASSUME ndJsonSerialize(IOEnv.GEN_OUT, Scen)
VARIABLE x
Init == x = 0
Next == UNCHANGED x
=============================================================================
