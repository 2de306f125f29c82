----------------------------- MODULE GenUserIds -----------------------------
EXTENDS UserIds, SequencesExt, FiniteSetsExt, Json, IOUtils, TLC
Big == IOEnv.BIG = "1"
\* Ann / Ann B. Lee / Zoe(diaeresis) Li(CJK) / Lee, Ann / An"n\ / Bob (x) / a@b / <a> / two spaces / R&D: [x] / x
Names == {<<>>, <<65, 110, 110>>, <<65, 110, 110, 32, 66, 46, 32, 76, 101, 101>>, <<90, 111, 235, 32, 26446>>, <<76, 101, 101, 44, 32, 65, 110, 110>>,
          <<65, 110, 34, 110, 92>>, <<66, 111, 98, 32, 40, 120, 41>>, <<97, 64, 98>>, <<60, 97, 62>>, <<65, 32, 32, 66>>,
          <<82, 38, 68, 58, 32, 91, 120, 93>>, <<120>>, <<128512, 32, 45, 32, 39, 126>>, <<61, 63, 117, 63, 113, 63, 120, 63, 61>>,
          <<65, 59, 9, 66>>, <<46, 120>>, <<37, 50, 48>>}
Mails == {<<>>, <<97, 64, 98>>, <<97, 46, 98, 43, 99, 64, 100, 46, 101, 45, 102, 46, 103>>, <<34, 97, 32, 98, 34, 64, 99>>, <<97, 64, 91, 49, 46, 50, 93>>,
          <<34, 97, 92, 34, 62, 34, 64, 99>>, <<235, 64, 233, 46, 99>>, <<34, 40, 37, 41, 34, 64, 99>>}
Coms == {<<>>, <<120>>, <<65, 110, 110>>, <<110>>, <<119, 111, 114, 107, 32, 107, 101, 121>>, <<97, 32, 40, 98, 41>>, <<41, 40>>, <<60, 97, 64, 98, 62>>, <<34, 92>>,
         <<235, 44, 26446>>, <<97, 32, 32, 98>>, <<97, 64, 98>>, <<66, 111, 98, 32, 40, 120, 41>>}
P(n, m, c) == [name |-> n, mail |-> m, com |-> c]
Starts == {P(n, m, c) : n \in Names, m \in Mails, c \in Coms}
Keep(p, s) == Big \/ (Len(p.name) + Len(p.mail) + Len(p.com) + Len(s)) % 2 = 0 \/ p.name = p.com \/ p.name = <<>> \/ Len(p.mail) = 3
Op(f, v) == [f |-> f, v |-> v]
Ops == {Op("name", v) : v \in Names} \cup {Op("mail", v) : v \in Mails} \cup {Op("com", v) : v \in Coms}
N3 == {<<65, 110, 110>>, <<76, 101, 101, 44, 32, 65, 110, 110>>, <<90, 111, 235, 32, 26446>>}
C3 == {<<>>, <<65, 110, 110>>, <<97, 32, 40, 98, 41>>}
M3 == {<<>>, <<97, 64, 98>>, <<34, 97, 32, 98, 34, 64, 99>>}
Fewer == {P(n, m, c) : n \in N3 \cup {<<>>}, m \in M3, c \in C3}
FewOps == {Op("name", v) : v \in N3 \cup {<<>>}} \cup {Op("mail", v) : v \in M3} \cup {Op("com", v) : v \in C3}
S(p, s, o) == [p |-> p, s |-> s, o |-> o]
Static == {x \in {S(p, s, <<>>) : p \in Starts, s \in Shapes} : Keep(x.p, x.s)}
One == {S(p, s, <<o>>) : p \in Fewer, s \in {"before", "after", "bare", "tight", "first"}, o \in Ops}
Two == {S(p, s, <<o1, o2>>) : p \in Fewer, s \in {"before", "after"}, o1 \in FewOps, o2 \in (IF Big THEN Ops ELSE FewOps)}
Three == IF ~Big THEN {} ELSE {S(p, "before", <<o1, o2, o3>>) : p \in Fewer, o1 \in FewOps, o2 \in FewOps, o3 \in FewOps}
\* every special character at every place
Chars == Specials \cup White \cup {Bsl, 160, 97}
Odd == UNION {{<<97, c, 98>>, <<c>>, <<97, c>>, <<c, 97>>} : c \in Chars} \cup {<<c, d>> : c, d \in {Quote, Bsl, Open, Close, Lt, Sp, 10, 13, 58}}
Spread == {S(P(n, m, c), s, <<>>) : n \in Odd, m \in {<<>>, <<97, 64, 98>>}, c \in {<<>>, <<120>>}, s \in {"before", "after", "quoted", "tight"}}
          \cup {S(P(n, m, c), s, <<>>) : n \in {<<>>, <<110>>}, m \in {<<>>, <<97, 64, 98>>}, c \in Odd, s \in {"before", "after", "bare", "first"}}
          \cup {S(p, "before", <<Op(f, v)>>) : p \in {P(<<110>>, <<97, 64, 98>>, <<120>>), P(<<>>, <<97, 64, 98>>, <<>>), P(<<>>, <<>>, <<120>>)}, f \in {"name", "com"}, v \in Odd}
Fitting == {x \in Static \cup One \cup Spread : Fits(x.p, x.s)} \cup Two \cup Three
\* any other text must at least be readable
Junk == UNION {[1..k -> {Lt, Gt, Open, Close, Quote, At, Sp, 44, 58, 59, 91, Bsl, 97}] : k \in 0..(IF Big THEN 4 ELSE 3)}
RECURSIVE After(_, _)
After(p, o) == IF o = <<>> THEN <<p>> ELSE <<p>> \o After([p EXCEPT ![o[1].f] = o[1].v], Tail(o))
Block == 200
MinOf(a, b) == IF a < b THEN a ELSE b
Scen == LET A == SetToSeq(Fitting)  J == SetToSeq(Junk)  NJ == (Len(J) + Block - 1) \div Block IN
       [i \in 1..(Len(A) + NJ) |->
          IF i <= Len(A) THEN
            LET x == A[i] IN
            [id |-> Write(x.p, x.s), ops |-> x.o, want |-> After(x.p, x.o), junk |-> <<>>,
             key |-> x.s \o " " \o ToString(Write(x.p, x.s)) \o " " \o ToString([j \in 1..Len(x.o) |-> x.o[j]])]
          ELSE LET k == i - Len(A) IN
            [id |-> <<>>, ops |-> <<>>, want |-> <<>>, junk |-> SubSeq(J, (k - 1) * Block + 1, MinOf(k * Block, Len(J))), key |-> "other text " \o ToString(k)]]
ASSUME ndJsonSerialize(IOEnv.GEN_OUT, Scen)
VARIABLE x
Init == x = 0
Next == UNCHANGED x
=============================================================================
