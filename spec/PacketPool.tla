----------------------------- MODULE PacketPool -----------------------------
(* Fields of packets of every kind at boundary values. *)
EXTENDS Packets, FiniteSets, Json, IOUtils, TLC
Big == IOEnv.BIG = "1"
R(n, k) == [i \in 1..n |-> (i * 31 + k * 17) % 256]
N(n, k) == [i \in 1..n |-> IF i = 1 THEN (IF k % 2 = 0 THEN 255 ELSE 1 + (k % 127)) ELSE (i * 31 + k * 17) % 256]
KeyIds == {R(8, 1), <<0, 0, 0, 0, 0, 0, 0, 1>>, <<255, 0, 0, 0, 0, 0, 0, 0>>, <<10, 11, 12, 13, 14, 15, 171, 205>>}
Times == {<<0, 0, 0, 0>>, <<0, 0, 0, 1>>, <<127, 255, 255, 255>>, <<128, 0, 0, 0>>, <<255, 255, 255, 255>>, <<84, 130, 211, 7>>}
Datas == {<<>>, <<0>>, R(1, 3), R(2, 1), R(33, 2), R(300, 5), <<255, 255, 255>>, Zeros(5), R(192, 9), R(8400, 4)}
Algos == {1, 2, 3, 16, 17, 20}
NMpi(a) == CASE a \in {1, 2, 3} -> 2 [] a = 17 -> 4 [] OTHER -> 3
MpiVals == {<<>>, <<1>>, <<127>>, <<128>>, <<255>>, <<1, 0>>, <<255, 255>>, N(20, 1), N(64, 2), N(128, 3), N(129, 5)}
\* each list: value k at position j, small distinct values elsewhere
MpiLists(a) == {[i \in 1..NMpi(a) |-> IF i = j THEN v ELSE <<i + 1>>] : j \in 1..NMpi(a), v \in MpiVals}
               \cup {[i \in 1..NMpi(a) |-> N(100 + i, i)]}
T1 == {[t |-> 1, version |-> 3, keyid |-> k, algo |-> a, esk |-> e] :
        k \in KeyIds \cup {<<>>}, a \in {1, 16, 17}, e \in {Mpi(N(128, 3)), Mpi(N(5, 1)) \o Mpi(N(128, 2)), R(3, 3)}}
Sp(t, b) == <<Len(b) + 1, t>> \o b
SpSets == {<<>>, <<Sp(2, <<84, 0, 0, 1>>)>>, <<Sp(2, <<84, 0, 0, 1>>), Sp(16, R(8, 1)), Sp(27, <<3>>)>>,
           <<Sp(16, R(8, 1)), Sp(2, <<84, 0, 0, 1>>)>>, <<Sp(130, <<0, 0, 0, 1>>), Sp(2, <<0, 0, 0, 2>>)>>}
HMpis == {<<N(128, 2)>>, <<N(20, 1), N(19, 2)>>, <<<<1>>>>, <<<<>>, <<>>>>}
T2 == {[t |-> 2, version |-> 4, stype |-> st, algo |-> a, hash |-> h, hashed |-> hs, unhashed |-> us, hash2 |-> h2, mpis |-> m] :
        <<st, a, h, hs, us, h2, m>> \in
          ({0, 16, 255} \X {1, 17} \X {2, 10} \X SpSets \X {<<>>, <<Sp(16, R(8, 2))>>} \X {<<0, 1>>} \X {<<N(128, 2)>>})
          \cup ({0} \X {1} \X {8} \X {<<>>} \X SpSets \X {<<0, 0>>, <<255, 254>>} \X HMpis)}
      \cup
      {[t |-> 2, version |-> v, stype |-> st, time |-> tm, keyid |-> k, algo |-> a, hash |-> h, hash2 |-> h2, mpis |-> m] :
        <<v, st, tm, k, a, h, h2, m>> \in
         ({3} \X {0, 19, 255} \X Times \X KeyIds \X {1, 17} \X {1} \X {<<7, 200>>} \X {<<N(128, 2)>>})
         \cup ({2, 3} \X {1} \X {<<0, 0, 1, 0>>} \X {R(8, 3)} \X {1} \X {2, 8} \X {<<0, 0>>, <<255, 1>>} \X HMpis)}
Salts == {R(8, 3), Zeros(8)}
S2Ks == {[k |-> 0, hash |-> h, salt |-> <<>>, count |-> 0] : h \in {1, 2, 8}}
        \cup {[k |-> 1, hash |-> h, salt |-> s, count |-> 0] : h \in {2, 10}, s \in Salts}
        \cup {[k |-> 3, hash |-> h, salt |-> s, count |-> c] : h \in {2, 9}, s \in Salts, c \in {0, 15, 16, 96, 255}}
T3 == {[t |-> 3, version |-> 4, cipher |-> c, s2k |-> s, esk |-> e] :
        c \in {1, 2, 3, 7, 9, 13}, s \in S2Ks, e \in {<<>>, R(17, 1), R(25, 2), R(33, 3)}}
T4 == {[t |-> 4, version |-> 3, stype |-> st, hash |-> h, algo |-> a, keyid |-> k, nested |-> n] :
        st \in {0, 1, 255}, h \in {1, 10}, a \in {1, 17}, k \in KeyIds, n \in {0, 1}}
Pub(t) == {[t |-> t, version |-> v, time |-> tm, days |-> d, algo |-> a, mpis |-> m] :
        <<v, tm, d, a, m>> \in
          {<<v, tm, d, a, m>> \in {2, 3, 4} \X Times \X {0, 1, 255, 256, 65535} \X Algos \X {<<N(128, 3), <<1>>, <<2>>, <<3>>>>} : d = 0 \/ v < 4}}
PubM(t) == {[t |-> t, version |-> 4, time |-> <<84, 0, 0, 1>>, days |-> 0, algo |-> am[1], mpis |-> am[2]] :
        am \in UNION {{<<a, m>> : m \in MpiLists(a)} : a \in Algos}}
Fit(p) == [p EXCEPT !.mpis = SubSeq(@, 1, NMpi(p.algo))]
Pubs(t) == {Fit(p) : p \in Pub(t) \cup PubM(t)}
Iv(c) == R(IF c >= 7 THEN 16 ELSE 8, c)
NoS2K == [k |-> 0, hash |-> 0, salt |-> <<>>, count |-> 0]
Gnu == {[k |-> 1001, hash |-> h, salt |-> <<>>, count |-> 0] : h \in {0, 2}}
       \cup {[k |-> 1002, hash |-> 2, salt |-> s, count |-> 0] : s \in {R(16, 2), R(6, 1), <<>>}}
Usages == {<<0, 0, NoS2K, <<>>, R(40, 1)>>}
          \cup {<<u, c, s, Iv(c), R(90, u)>> : u \in {254, 255}, c \in {1, 2, 3, 4, 7, 9, 10, 12}, s \in S2Ks}
          \cup {<<254, 3, g, <<>>, <<>>>> : g \in Gnu} \cup {<<255, 0, g, <<>>, <<>>>> : g \in Gnu}
          \cup {<<c, c, NoS2K, Iv(c), R(55, c)>> : c \in {1, 2, 3, 9}}
Secs(t) == {[t |-> t, version |-> v, time |-> tm, days |-> 3, algo |-> a, mpis |-> m, usage |-> u[1], cipher |-> u[2],
             s2k |-> u[3], iv |-> u[4], secret |-> u[5]] :
        <<v, tm, a, m, u>> \in ({4} \X {<<84, 0, 0, 1>>} \X {1, 17, 16} \X {<<N(128, 3), <<1, 2>>, <<3>>, <<4>>>>} \X Usages)
             \cup ({3} \X {<<255, 0, 0, 1>>} \X {1} \X {<<N(127, 3), <<17>>>>} \X
                    {u \in Usages : u[1] \notin {254, 255} \/ (u[3].k = 3 /\ u[3].count = 96 /\ u[2] \in {1, 9})})
             \cup ({4} \X Times \X Algos \X {<<N(20, 3), <<1, 2>>, <<3>>, <<4>>>>} \X {u \in Usages : u[1] = 0})}
SecsF(t) == {Fit(p) : p \in Secs(t)}
T8 == {[t |-> 8, algo |-> a, data |-> d] : a \in {0, 1, 2, 3, 100}, d \in Datas}
T9 == {[t |-> 9, data |-> d] : d \in Datas}
T10 == {[t |-> 10, data |-> d] : d \in {<<80, 71, 80>>, <<0>>, R(10, 1)}}
Names == {<<>>, <<97>>, <<95, 67, 79, 78, 83, 79, 76, 69>>, <<233, 8364, 128512>>, <<97, 47, 98, 0, 10>>,
          [i \in 1..255 |-> 97 + (i % 26)], [i \in 1..85 |-> 8364], <<56448, 97, 56575>>}
T11 == {[t |-> 11, fmt |-> f, name |-> n, time |-> tm, text |-> d] :
         <<f, n, tm, d>> \in ({98, 108, 49} \X Names \X Times \X {R(40, 1)})
            \cup ({98, 116} \X {<<97>>} \X {<<84, 0, 0, 1>>} \X Datas)
            \cup ({117} \X Names \X {<<84, 0, 0, 1>>, <<255, 0, 0, 0>>} \X
                   {<<>>, <<13, 10, 97, 10, 13>>, <<233, 8364, 128512, 10>>, <<97, 13, 10>>, <<65279>>, <<8232, 133, 0>>})
            \cup ({116} \X {<<97>>} \X {<<84, 0, 0, 1>>} \X {<<>>, <<13, 10, 97, 10, 13>>, <<233, 255, 128, 10>>, <<97, 13, 10>>})}
T12 == {[t |-> 12, trust |-> v, extra |-> e] : v \in {0, 1, 6, 255}, e \in {<<>>, <<3>>, <<0>>}}
       \cup {[t |-> 12, trust |-> 0, extra |-> <<1, 103, 112, 103, 0, 0>>]}
Texts == {<<>>, <<97>>, <<65, 108, 105, 99, 101, 32, 60, 97, 64, 98, 62>>, <<233, 8364, 128512>>, <<56552, 97>>, <<97, 56447 + 1, 8364>>,
          [i \in 1..300 |-> 97 + (i % 26)], <<0, 10, 13, 127>>, <<97, 768>>, <<224, 56544>>}
Valid(x) == \A i \in 1..Len(x) : x[i] \notin 56448..56575
T13 == {[t |-> 13, text |-> x] : x \in Texts}
TCo == {[t |-> t, text |-> x] : t \in {16, 61}, x \in {y \in Texts : Valid(y)}}
SubBodies == {<<1, Image(1, R(3, 1))>>, <<1, Image(1, <<>>)>>, <<1, Image(100, R(200, 2))>>, <<1, Image(101, R(9000, 3))>>,
              <<2, R(5, 1)>>, <<100, <<>>>>, <<110, R(250, 3)>>, <<2, R(190, 3)>>, <<2, R(191, 3)>>, <<2, R(8382, 1)>>, <<2, R(8383, 1)>>}
SubsAll == {<<b[1], b[2], f>> : b \in SubBodies, f \in {1, 2, 5}}
Subs == {[type |-> x[1], body |-> x[2], form |-> x[3]] : x \in {x \in SubsAll : LegalSub(Len(x[2]) + 1, x[3])}}
T17 == {[t |-> 17, subs |-> <<s>>] : s \in Subs}
       \cup {[t |-> 17, subs |-> <<s, r, s>>] : s \in {x \in Subs : Len(x.body) < 300}, r \in {x \in Subs : Len(x.body) < 30}}
T18 == {[t |-> 18, version |-> v, data |-> d] : v \in {1, 2}, d \in Datas}
T19 == {[t |-> 19, data |-> R(20, k)] : k \in {1, 2}}
T63 == {[t |-> 63, marker |-> R(8, 1), control |-> c, data |-> d] : c \in {1, 3, 255}, d \in {<<>>, R(5, 1)}}
TUn == {[t |-> t, data |-> d] : t \in {15, 20, 21, 40, 59, 60, 62}, d \in Datas}
All == SetToSeq(T1) \o SetToSeq(T2) \o SetToSeq(T3) \o SetToSeq(T4) \o SetToSeq(Pubs(6)) \o SetToSeq(Pubs(14)) \o SetToSeq(SecsF(5))
       \o SetToSeq(SecsF(7)) \o SetToSeq(T8) \o SetToSeq(T9) \o SetToSeq(T10) \o SetToSeq(T11) \o SetToSeq(T12) \o SetToSeq(T13)
       \o SetToSeq(TCo) \o SetToSeq(T17) \o SetToSeq(T18) \o SetToSeq(T19) \o SetToSeq(T63) \o SetToSeq(TUn)
=============================================================================
