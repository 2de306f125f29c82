----------------------------- MODULE GenDeflate -----------------------------
EXTENDS Deflate, Integers, Json, IOUtils, TLC
Big == IOEnv.BIG = "1"
Noise(n, k) == [i \in 1..n |-> (((i * i * 37 + i * 11 + k * 101) % 251) + ((i * k) % 5)) % 256]
Run(c, n) == [i \in 1..n |-> c]
Period(w, n) == [i \in 1..n |-> w[((i - 1) % Len(w)) + 1]]
Datas == << <<>>, <<0>>, <<255>>, <<10, 13>>, [i \in 1..256 |-> i - 1], Run(0, 300), Run(200, 259), Noise(200, 1), Noise(64, 2), Period(<<97, 98, 99>>, 270),
            Period(Noise(40, 3), 120), Noise(90, 4) \o Run(7, 90) \o Noise(90, 4), <<120, 156>>, <<66, 90, 104, 57>> >>
Large == << <<"zero", "70000">>, <<"noise", "70000">>, <<"text", "140000">>, <<"zero", "1000000">>, <<"noise", "300000">> >>
Levels(a) == IF a = 0 THEN {99} ELSE IF a = 3 THEN {99} \cup 1..9 ELSE {99} \cup (0..9) \cup {-1}
Chunkings == << <<1000000000>>, <<1>>, <<0, 3>>, <<7, 0, 100>>, <<64>> >>
Coarse == << <<1000000000>>, <<4096>>, <<0, 65536>>, <<32768, 1>> >>
S(op, alg, level, data, fill, how, back, streams, key) ==
  [op |-> op, alg |-> alg, level |-> level, data |-> data, fill |-> fill, how |-> how, back |-> back, streams |-> streams, key |-> key]
N(k) == ToString(k)
\* every algorithm and level
Wrote == {S("write", a[1], a[2], Datas[d], <<"", "0">>, Chunkings[h], Chunkings[b], <<>>, "write alg " \o N(a[1]) \o " level " \o N(a[2]) \o " data " \o N(d) \o " split " \o N(h) \o N(b)) :
           a \in {a \in (0..3) \X ((-1)..99) : a[2] \in Levels(a[1])}, d \in 1..Len(Datas), h \in 1..Len(Chunkings), b \in 1..Len(Chunkings)}
Quick(s) == Big \/ s.level \in {99, 6, 1} \/ (s.how = <<0, 3>> /\ s.back = <<7, 0, 100>>) \/ (s.how = <<1000000000>> /\ s.back = <<1>>)
Bulk == {S("write", a[1], a[2], <<>>, Large[d], Coarse[h], Coarse[h], <<>>, "write alg " \o N(a[1]) \o " level " \o N(a[2]) \o " " \o N(Large[d]) \o " split " \o N(h)) :
           a \in {a \in (0..3) \X ((-1)..99) : a[2] \in Levels(a[1]) /\ (Big \/ a[2] \in {99, 1, 9})}, d \in 1..(IF Big THEN Len(Large) ELSE 3), h \in 1..Len(Coarse)}
\* the same inside messages
Msgs == {S("message", a[1], a[2], Datas[d], <<"", "0">>, Chunkings[1], Chunkings[1], <<>>, "message alg " \o N(a[1]) \o " level " \o N(a[2]) \o " data " \o N(d)) :
           a \in {a \in (0..3) \X ((-1)..99) : a[2] \in Levels(a[1])}, d \in 1..Len(Datas)}

\* streams made by others: stored, fixed, mixed, with its own codes; some with matches that overlap
T(l, c) == [len |-> l, c |-> c]
W(b) == Pack(b)
F1 == FixedBits(<<T(0, 65), T(258, 1), T(0, 200), T(3, 2), T(130, 259)>>, TRUE)
F2 == FixedBits(Lits(<<0, 143, 144, 255>>), FALSE)
St(d, last) == StoredBits(0, d, last)
Own == <<133, 203, 177, 9, 0, 48, 12, 3, 193, 89, 237, 200, 56, 88, 224, 253, 203, 252, 6, 1, 21, 87, 188, 228, 108, 117, 167, 227, 6, 196, 105, 21, 28, 193,
         13, 88, 13, 203, 112, 105, 53, 180, 165, 255, 45, 242, 124, 247, 0>>
Raw == << W(St(<<>>, TRUE)), W(St(<<5, 6, 7>>, TRUE)), W(FixedBits(<<>>, TRUE)), W(F1), W(F2 \o FixedBits(<<>>, TRUE)),
          W(F2 \o StoredBits(Len(F2), <<1, 2, 3, 4>>, FALSE) \o FixedBits(<<T(5, 8)>>, TRUE)), W(StoredBits(0, Noise(100, 9), FALSE) \o FixedBits(<<T(100, 100)>>, TRUE)), Own,
          W(FixedBits(<<T(0, 1), T(3, 2)>>, TRUE)), W(<<1, 1, 1>> \o LitBits(5)), W(<<1, 1, 0>> \o LitBits(286)), W(<<1, 0, 0, 0, 0, 0, 0, 0>> \o LowBits(3, 16) \o LowBits(3, 16)) >>
Zhead == << <<120, 156>>, <<120, 1>>, <<8, 29>>, <<104, 129>>, <<120, 157>>, <<121, 155>>, <<136, 28>>, <<120, 187>> >>
Zl(h, r) == h \o r \o Sum(Inflate(r).out)
ZBases == {Zl(Zhead[h], Raw[r]) : h \in 1..Len(Zhead), r \in {1, 2, 3, 4, 6, 8}}
Flip(s, b) == [s EXCEPT ![(b \div 8) + 1] = LET m == Pow2[(b % 8) + 1] IN IF (@ \div m) % 2 = 1 THEN @ - m ELSE @ + m]
Damage(s) == [b \in 1..(8 * Len(s)) |-> Flip(s, b - 1)]
Cuts(s) == [n \in 1..Len(s) |-> SubSeq(s, 1, n - 1)]
Peer(a, strs, name) == {S("read", a, 99, <<>>, <<"", "0">>, <<>>, Chunkings[b], strs, "read " \o name \o " split " \o N(b)) : b \in 1..Len(Chunkings)}
Peers == Peer(1, Raw, "raw") \cup UNION {Peer(2, SetToSeq({z}), "zlib " \o N(z)) : z \in ZBases}
Base2(r) == Zl(<<120, 156>>, Raw[r])
\* (the last three streams of Raw are not streams)
Spoilt == UNION {{S("read", 1, 99, <<>>, <<"", "0">>, <<>>, Chunkings[b], Damage(Raw[r]), "read flipped raw " \o N(r) \o " split " \o N(b)),
                  S("read", 1, 99, <<>>, <<"", "0">>, <<>>, Chunkings[b], Cuts(Raw[r]), "read cut raw " \o N(r) \o " split " \o N(b)),
                  S("read", 2, 99, <<>>, <<"", "0">>, <<>>, Chunkings[b], Damage(Base2(IF r > 8 THEN 2 ELSE r)), "read flipped zlib " \o N(r) \o " split " \o N(b)),
                  S("read", 2, 99, <<>>, <<"", "0">>, <<>>, Chunkings[b], Cuts(Base2(IF r > 8 THEN 2 ELSE r)), "read cut zlib " \o N(r) \o " split " \o N(b))} :
                 r \in (IF Big THEN 1..Len(Raw) ELSE {2, 4, 6, 8}), b \in (IF Big THEN {1, 2} ELSE {1})}
\* bzip2, judged by its own check sums
Bz == <<66, 90, 104, 49, 49, 65, 89, 38, 83, 89, 4, 194, 119, 120, 0, 0, 0, 1, 0, 56, 0, 32, 0, 33, 143, 80, 102, 8, 187, 139, 185, 34, 156, 40, 72, 2, 97, 59, 188, 0>>
BzData == <<97, 98, 97, 98, 97, 98, 99>>
Bzip == Peer(3, <<Bz>>, "bzip2") \cup {S("read", 3, 99, <<>>, <<"", "0">>, <<>>, Chunkings[b], Cuts(Bz), "read cut bzip2 split " \o N(b)) : b \in {1, 2}}
        \* each octet after the level changed
        \cup {S("read", 3, 99, <<>>, <<"", "0">>, <<>>, Chunkings[b], [i \in 1..33 |-> [Bz EXCEPT ![i + 4] = 255 - @]], "read damaged bzip2 split " \o N(b)) : b \in {1, 2}}
Scen == LET A == SetToSeq({s \in Wrote : Quick(s)}) \o SetToSeq(Bulk) \o SetToSeq(Msgs) \o SetToSeq(Peers) \o SetToSeq(Spoilt) \o SetToSeq(Bzip)
        IN [i \in 1..Len(A) |-> A[i]]
ASSUME ndJsonSerialize(IOEnv.GEN_OUT, Scen)
VARIABLE x
Init == x = 0
Next == UNCHANGED x
=============================================================================
