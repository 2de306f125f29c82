------------------------------ MODULE GenArmor ------------------------------
EXTENDS Armor, Json, IOUtils, TLC
Big == IOEnv.BIG = "1"
D(n, k) == [i \in 1..n |-> (i * 67 + k * 101 + (i \div 7) * k) % 256]
T(s) == s
Names == <<<<86, 101, 114, 115, 105, 111, 110>>, <<67, 111, 109, 109, 101, 110, 116>>,
           <<77, 101, 115, 115, 97, 103, 101, 73, 68>>, <<72, 97, 115, 104>>,
           <<67, 104, 97, 114, 115, 101, 116>>, <<88, 45, 79, 116, 104, 101, 114>>, <<90>>>>
Values == <<<<65>>, <<97, 58, 32, 98>>, <<61, 61>>, <<232, 8364>>, <<32, 120>>, <<45, 45, 45, 45, 45>>,
            <<49, 46, 48, 32, 40, 66, 69, 71, 73, 78, 41>>, <<133, 120>>, <<120, 11, 12, 28, 8232, 120>>>>
HeadSets ==
  {<<>>} \cup {<<<<Names[n], Values[v]>>>> : n \in 1..7, v \in 1..9}
  \cup {[i \in 1..7 |-> <<Names[i], Values[((i * k) % 9) + 1]>>] : k \in 1..3}
  \cup {[i \in 1..Len(s) |-> <<Names[s[i]], Values[1]>>] : s \in {<<1, 2>>, <<2, 5>>, <<3, 4, 6>>, <<1, 6, 7>>, <<4, 7>>}}
Labels == {<<1, <<>>, <<>>>>, <<2, <<>>, <<>>>>, <<3, <<>>, <<>>>>, <<4, <<>>, <<>>>>,
           <<1, <<1>>, <<>>>>, <<1, <<10>>, <<>>>>, <<1, <<2>>, <<3>>>>, <<1, <<12>>, <<345>>>>}
Obj(l, h, d) == [type |-> l[1], part |-> l[2], total |-> l[3], heads |-> h, data |-> d]
NoHead == <<>>
L1 == <<1, <<>>, <<>>>>
Sizes == (0..(IF Big THEN 400 ELSE 160)) \cup {1000}
Objs == {Obj(L1, NoHead, D(n, k)) : n \in Sizes, k \in {1, 5}}
        \cup {Obj(L1, NoHead, <<b>>) : b \in Byte}
        \cup {Obj(L1, NoHead, [i \in 1..n |-> b]) : n \in {53, 54, 55, 107, 108, 109}, b \in {0, 255, 251}}
        \cup {Obj(l, h, D(n, 3)) : l \in Labels, h \in {NoHead, <<<<Names[1], Values[1]>>>>}, n \in {0, 1, 54, 60}}
        \cup {Obj(l, h, D(5, 2)) : l \in {L1, <<2, <<>>, <<>>>>}, h \in HeadSets}
K(o) == ToString(<<o.type, o.part, o.total, Len(o.heads), Len(o.data)>>)
Write == {[kind |-> "write", o |-> o, key |-> "write " \o K(o)] : o \in Objs}
Read == {[kind |-> "read", o |-> v[1], key |-> "read " \o K(v[1]) \o ToString(<<v[2], v[3], v[4]>>),
          text |-> [i \in 1..v[4] |-> LF] \o Join(Lines(v[1], v[2]), v[3])] :
   v \in ({o \in Objs : Len(o.data) \in {0, 1, 5, 54, 55, 57, 58, 60, 107} } \X {72} \X {<<LF>>} \X {0})
     \cup ({o \in Objs : Len(o.data) \in {0, 1, 5, 54, 57, 60, 107, 160} /\ Len(o.heads) < 2}
            \X {4, 64, 76} \X {<<LF>>, <<CR, LF>>} \X {0, 2})}
\* attacks on short texts, one record per altered text
Base == {Obj(L1, NoHead, D(n, 4)) : n \in 0..(IF Big THEN 9 ELSE 5)} \cup {Obj(<<2, <<>>, <<>>>>, <<<<Names[2], Values[1]>>>>, D(58, 9)),
         Obj(<<1, <<2>>, <<3>>>>, NoHead, D(7, 9)), Obj(L1, NoHead, Zeros(6)), Obj(<<4, <<>>, <<>>>>, NoHead, Zeros(4))}
Text(o) == Join(Lines(o, 64), <<LF>>)
Chars == {65, 66, 103, 47, 61, 33, 32, 45} \cup (IF Big THEN {43, 57, 122, 10, 0} ELSE {})
HeadEnd(o) == Len(HeadLine(o)) + 1
Seg(o) == LET pre == Len(Join(SubSeq(Lines(o, 64), 1, 2 + Len(o.heads)), <<LF>>)) IN pre + 1
At == {[kind |-> "alter", o |-> o, text |-> Edit(Text(o), i, c), at |-> i, seg |-> Seg(o), key |-> "alter " \o K(o) \o ToString(<<i, c>>)] :
   <<o, i, c>> \in {<<o, i, c>> \in Base \X (1..220) \X Chars :
        i < Len(Text(o)) /\ (i < HeadEnd(o) \/ i >= Seg(o)) /\ Text(o)[i] # c /\ Text(o)[i] # LF}}
Drop(t, i) == SubSeq(t, 1, i - 1) \o SubSeq(t, i + 1, Len(t))
Ins(t, i, c) == SubSeq(t, 1, i - 1) \o <<c>> \o SubSeq(t, i, Len(t))
Swap(t, i) == [t EXCEPT ![i] = t[i + 1], ![i + 1] = t[i]]
Dels == {[kind |-> "edit", o |-> o, text |-> Drop(Text(o), i), seg |-> Seg(o), key |-> "del " \o K(o) \o ToString(i)] :
   <<o, i>> \in {<<o, i>> \in Base \X (1..160) : i >= Seg(o) /\ i < Len(Text(o))}}
   \cup {[kind |-> "edit", o |-> o, text |-> Ins(Text(o), i, c), seg |-> Seg(o), key |-> "ins " \o K(o) \o ToString(<<i, c>>)] :
   <<o, i, c>> \in {<<o, i, c>> \in Base \X (1..160) \X {65, 122, 33} : i >= Seg(o) /\ i < Len(Text(o))}}
   \cup {[kind |-> "edit", o |-> o, text |-> Swap(Text(o), i), seg |-> Seg(o), key |-> "swap " \o K(o) \o ToString(i)] :
   <<o, i>> \in {<<o, i>> \in Base \X (1..160) : i >= Seg(o) /\ i + 1 < Len(Text(o)) /\ Text(o)[i] # Text(o)[i + 1]}}
Cuts == {[kind |-> "cut", o |-> o, text |-> SubSeq(Text(o), 1, i), key |-> "cut " \o K(o) \o ToString(i)] :
   <<o, i>> \in {<<o, i>> \in Base \X (0..260) : i < Len(Text(o)) - 1}}
\* a tail that belongs to another armored object, and a checksum of other data
Tails == {[kind |-> "tail", o |-> Obj(l, NoHead, D(4, 1)), key |-> "tail " \o ToString(<<l, m>>),
           text |-> LET ls == Lines(Obj(l, NoHead, D(4, 1)), 64) IN
                    Join([ls EXCEPT ![Len(ls)] = TailLine(Obj(m, NoHead, <<>>))], <<LF>>)] :
   <<l, m>> \in {<<l, m>> \in Labels \X Labels : l # m}}
Sums == {[kind |-> "sum", o |-> Obj(L1, NoHead, D(n, 1)), key |-> "sum " \o ToString(<<n, k>>),
          text |-> LET ls == Lines(Obj(L1, NoHead, D(n, 1)), 64) IN
                   Join([ls EXCEPT ![Len(ls) - 1] = CrcLine(D(k, 2))], <<LF>>)] :
   <<n, k>> \in {<<n, k>> \in (0..12) \X (0..12) : D(n, 1) # D(k, 2)}}
Scen == SetToSeq(Write) \o SetToSeq(Read) \o SetToSeq(At) \o SetToSeq(Dels) \o SetToSeq(Cuts) \o SetToSeq(Tails) \o SetToSeq(Sums)
ASSUME ndJsonSerialize(IOEnv.GEN_OUT, Scen)
VARIABLE x
Init == x = 0
Next == UNCHANGED x
=============================================================================
