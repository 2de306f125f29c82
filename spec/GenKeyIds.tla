----------------------------- MODULE GenKeyIds -----------------------------
EXTENDS KeyIds, FiniteSets, Json, IOUtils, TLC
Big == IOEnv.BIG = "1"
N(n, k) == [i \in 1..n |-> IF i = 1 THEN (IF k % 2 = 0 THEN 255 ELSE 1 + (k % 127)) ELSE (i * 31 + k * 17) % 256]
NMpi(a) == CASE a \in {1, 2, 3} -> 2 [] a = 17 -> 4 [] OTHER -> 3
NSec(a) == IF a \in {1, 2, 3} THEN 4 ELSE 1
K(v, t, d, a, m) == [version |-> v, time |-> t, days |-> d, algo |-> a, mpis |-> SubSeq(m, 1, NMpi(a))]
M0 == <<N(128, 3), <<1, 0, 1>>, N(20, 2), N(64, 5)>>
T0 == <<84, 0, 0, 1>>
Mpis == {M0, <<N(32, 2), <<3>>, <<5>>, <<7>>>>, <<N(120, 1) \o Zeros(7) \o <<5>>, <<17>>, <<2>>, <<3>>>>, <<N(121, 4) \o Zeros(8), <<17>>, <<2>>, <<3>>>>,
         <<<<1, 2, 3>>, <<1>>, <<2>>, <<3>>>>, <<N(8, 2), <<255, 255>>, <<128>>, <<127>>>>, <<N(256, 7), N(256, 9), N(3, 2), N(255, 6)>>,
         <<N(IF Big THEN 8191 ELSE 1025, 2), <<1, 0, 1>>, <<2>>, N(90, 3)>>}
\* clock changes: central Europe, eastern US, Lord Howe, Sydney
Hours(base) == {base + 900 * i : i \in (-9)..9}
Changes == {1414285200, 1396141200, 1414908000, 1394348400, 1396710000, 1412434800, 1396713600}
Zones == {"UTC", "CET-1CEST,M3.5.0/2,M10.5.0/3", "EST5EDT,M3.2.0,M11.1.0", "AEST-10AEDT,M10.1.0,M4.1.0/3", "<+0530>-5:30",
          "<-12>12", "XXX-14", "<+1030>-10:30<+11>-11,M10.1.0,M4.1.0"}
Extreme == {<<0, 0, 0, 0>>, <<0, 0, 0, 1>>, <<127, 255, 255, 255>>, <<128, 0, 0, 0>>, <<255, 255, 255, 255>>, <<0, 1, 81, 128>>}
Shapes == {K(v, T0, d, a, m) : <<v, d, a, m>> \in {<<v, d, a, m>> \in {2, 3, 4} \X {0, 1, 365, 65535} \X {1, 2, 3, 16, 17, 20} \X Mpis :
             (v = 4 /\ d = 0) \/ (v < 4 /\ a \in {1, 2, 3} /\ (d = 0 \/ m = M0))}}
Timed == {K(vd[1], t, vd[2], 1, M0) : vd \in {<<4, 0>>, <<3, 0>>, <<3, 30>>},
            t \in Extreme \cup {U4(h) : h \in UNION {Hours(c) : c \in Changes}}}
SubOf(k) == [k EXCEPT !.mpis[1] = Tail(@) \o <<7>>]
\* a binding signature, only needed for the form of a transferable key
Binding == <<4, 24, 1, 2, 0, 0, 0, 0, 7, 7>> \o Mpi(<<9, 9>>)
Uid == <<65, 32, 60, 97, 64, 98, 62>>
Sec(a) == <<0>> \o ClearSecret([i \in 1..NSec(a) |-> N(10 + i, i)])
Stream(k, sec, new) ==
  Pkt(IF sec THEN 5 ELSE 6, PubBody(k) \o (IF sec THEN Sec(k.algo) ELSE <<>>), new) \o Pkt(13, Uid, new)
  \o (IF k.version < 4 THEN <<>>
      ELSE Pkt(IF sec THEN 7 ELSE 14, PubBody(SubOf(k)) \o (IF sec THEN Sec(k.algo) ELSE <<>>), new) \o Pkt(2, Binding, new))
S(k, sec, new, z) == [k |-> IF k.version < 4 THEN <<k>> ELSE <<k, SubOf(k)>>, sec |-> sec, new |-> new, tz |-> z]
All == SetToSeq({S(k, sec, new, "UTC") : k \in Shapes, sec \in BOOLEAN, new \in BOOLEAN})
       \o SetToSeq({S(k, sec, new, z) : k \in Timed, sec \in IF Big THEN BOOLEAN ELSE {TRUE}, new \in IF Big THEN BOOLEAN ELSE {FALSE}, z \in Zones})
Scen == LET A == All IN
  [i \in 1..Len(A) |->
    LET s == A[i]  k == s.k[1] IN
    [keys |-> s.k, sec |-> s.sec, tz |-> s.tz, data |-> Stream(k, s.sec, s.new), pre |-> [j \in 1..Len(s.k) |-> Preimage(s.k[j])],
     dig |-> Digest(k),
     key |-> "v" \o ToString(k.version) \o " algo " \o ToString(k.algo) \o " time " \o ToString(k.time) \o " days " \o ToString(k.days)
             \o " mpi " \o ToString([j \in 1..Len(k.mpis) |-> Len(k.mpis[j])]) \o " " \o s.tz \o " " \o ToString(<<s.sec, s.new>>)]]
ASSUME ndJsonSerialize(IOEnv.GEN_OUT, Scen)
VARIABLE x
Init == x = 0
Next == UNCHANGED x
=============================================================================
