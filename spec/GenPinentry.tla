----------------------------- MODULE GenPinentry -----------------------------
EXTENDS Pinentry, SequencesExt, Json, IOUtils, TLC
Big == IOEnv.BIG = "1"
At(q, j) == q[(j % Len(q)) + 1]
\* one prompt, whatever is typed
Plain == UNION {[1..k -> {"p", "q"}] : k \in 1..(IF Big THEN 5 ELSE 4)}
Broken == {s \o <<"INT">> : s \in {<<>>} \cup UNION {[1..k -> {"p", "q"}] : k \in 1..(IF Big THEN 4 ELSE 3)}}
G(id, use, noask, rep, script) == [do |-> "get", id |-> id, use |-> use, noask |-> noask, rep |-> rep, script |-> script]
C(id) == [do |-> "clear", id |-> id, use |-> TRUE, noask |-> FALSE, rep |-> 0, script |-> <<"z">>]
Singles == {<<G(id, u, FALSE, rep, s)>> : id \in {"", "a"}, u \in BOOLEAN, rep \in 0..2, s \in Plain \cup Broken}
           \cup {<<G("a", TRUE, FALSE, 3, s)>> : s \in Plain \cup Broken}
           \cup {<<G(id, u, na, 0, <<"p">>)>> : id \in {"", "X", "a"}, u \in BOOLEAN, na \in BOOLEAN}
\* several in turn: what is typed says when it was
Kinds == {"a", "a not", "b", "a noask", "a not noask", "no entry", "X", "clear a", "clear b", "a twice", "a broken", "like a", "like b", "b broken"}
Few == {"a", "a not", "b", "a noask", "clear a", "clear b", "a twice", "a broken", "like a"}
Op(k, j) ==
  LET w == ToString(j) IN
  CASE k = "a" -> G("a", TRUE, FALSE, 0, <<w>>)
    [] k = "a not" -> G("a", FALSE, FALSE, 0, <<w>>)
    [] k = "b" -> G("b", TRUE, FALSE, 0, <<w>>)
    [] k = "a noask" -> G("a", TRUE, TRUE, 0, <<w>>)
    [] k = "a not noask" -> G("a", FALSE, TRUE, 0, <<w>>)
    [] k = "no entry" -> G("", TRUE, FALSE, 0, <<w>>)
    [] k = "X" -> G("X", TRUE, FALSE, 0, <<w>>)
    [] k = "a twice" -> G("a", TRUE, FALSE, 1, <<"z", w, w, w>>)
    [] k = "a broken" -> G("a", TRUE, FALSE, 1, <<"z", "INT">>)
    [] k = "b broken" -> G("b", TRUE, FALSE, 0, <<"INT">>)
    [] k = "like a" -> G("A", TRUE, FALSE, 0, <<w>>)
    [] k = "like b" -> G("b ", TRUE, FALSE, 0, <<w>>)
    [] k = "clear a" -> C("a")
    [] k = "clear b" -> C("b")
Ops(h) == [j \in 1..Len(h) |-> Op(h[j], j)]
Histories == [1..2 -> Kinds] \cup [1..3 -> Kinds] \cup {<<"a">> \o h : h \in [1..3 -> Few]} \cup (IF Big THEN [1..4 -> Kinds] ELSE {})
Asks(h) == \E j \in 1..Len(h) : h[j].do = "get"
H(back, ops, key) == [kind |-> "history", back |-> back, ops |-> ops, key |-> key, texts |-> <<>>, q |-> <<>>, lines |-> <<>>, greet |-> <<>>, seg |-> 0, then |-> "", env |-> FALSE]
Say(h) == FoldSeq(LAMBDA x, y : y \o ", " \o x, "", h)
SayS(o) == (IF o.use THEN "" ELSE "uncached ") \o (IF o.noask THEN "noask " ELSE "") \o o.id \o " *" \o ToString(o.rep) \o FoldSeq(LAMBDA x, y : y \o " " \o x, "", o.script)
\* ---------------------------------------------------------------- requests
X == 88
Pool == <<<<>>, <<97>>, <<97, 32, 98>>, <<43>>, <<37, 52, 49>>, <<37>>, <<97, 37>>, <<88, 88>>, <<88, 32>>, <<45, 45, 100, 97, 116, 97>>, <<10>>,
          <<97, 10, 67, 76, 69, 65, 82, 95, 80, 65, 83, 83, 80, 72, 82, 65, 83, 69, 32, 97>>, <<13, 10>>, <<9, 98>>, <<32>>, <<32, 32, 97, 32>>, <<228, 246>>, <<8364, 46>>, <<128273, 32, 107>>,
          <<47, 126, 45, 46, 95>>, <<35, 38, 61, 63, 34, 39, 60>>, <<127>>, <<233, 37, 69, 57>>, <<0>>, <<92, 110>>, <<160>>, <<8232, 97>>,
          [j \in 1..120 |-> 32 + (j % 95)], [j \in 1..95 |-> 31 + j], <<88>>, <<120>>, <<65279, 97>>, <<1103, 776>>>>
NP == Len(Pool)
Q(id, error, prompt, desc, j) == [id |-> id, error |-> error, prompt |-> prompt, desc |-> desc, use |-> (j % 7 # 3), noask |-> (j % 5 = 1), bar |-> (j % 3 = 1), rep |-> At(<<0, 1, 2, 0, 3, 12>>, j \div 2), none |-> (j % 2 = 0)]
Quests == {Q(Pool[a], <<>>, <<>>, <<>>, j) : a \in 1..NP, j \in {0, 3}}
          \cup {Q(<<>>, Pool[a], <<>>, <<>>, a) : a \in 1..NP} \cup {Q(<<>>, <<>>, Pool[a], <<>>, a + 1) : a \in 1..NP} \cup {Q(<<>>, <<>>, <<>>, Pool[a], a + 2) : a \in 1..NP}
          \cup {Q(At(Pool, j * 3 + j \div 29), At(Pool, j * 5 + 1), At(Pool, j * 7 + j \div 31), At(Pool, j * 11 + 4), j) : j \in 1..(IF Big THEN 1500 ELSE 250)}
R(q, j) == [H("agent", <<>>, "") EXCEPT !.kind = "request", !.q = q, !.env = (j % 3 = 0), !.key = "request " \o ToString(j)]
Clears == {Pool[a] : a \in {a \in 1..NP : Pool[a] \notin {<<>>, <<88>>}}}
L(id, j) == [H("agent", <<>>, "") EXCEPT !.kind = "clear", !.q = Q(id, <<>>, <<>>, <<>>, 0), !.key = "clear " \o ToString(j)]
\* ----------------------------------------------------------------- answers
OK == <<79, 75>>
Answers == {OK, OK \o <<32, 99, 108>>, OK \o <<120>>, <<111, 107>>, <<69, 82, 82, 32, 54, 55, 32, 78, 111>>, <<69, 82, 82>>, <<68, 32, 112, 43, 113>>, <<68, 32, 37, 50, 53, 37, 48, 65, 37, 48, 100>>, <<68, 32, 195>>, <<68, 32, 169, 32>>, <<68, 32, 37, 99, 51, 37, 65, 57>>,
            <<68, 32>>, <<68>>, <<83, 32, 80, 65, 83, 83>>, <<35, 32, 79, 75>>, <<73, 78, 81, 85, 73, 82, 69, 32, 75>>, <<>>, <<68, 65, 84, 65, 32, 120>>, <<32, 79, 75>>}
Less == {OK, OK \o <<120>>, <<69, 82, 82, 32, 49>>, <<68, 32, 112>>, <<68, 32, 37, 52, 49>>, <<83, 32, 120>>, <<73, 78, 81, 85, 73, 82, 69, 32, 75>>}
Scripts == {<<>>} \cup [1..1 -> Answers] \cup [1..2 -> Answers] \cup {s \o <<OK>> : s \in [1..2 -> Answers]} \cup [1..3 -> Less] \cup (IF Big THEN [1..3 -> Answers] \cup [1..4 -> Less] ELSE {})
Greets == {<<OK>>, <<OK \o <<32, 80>>>>, <<<<69, 82, 82, 32, 49>>>>, <<>>, <<<<35, 32, 104>>, OK>>, <<<<72, 101, 108, 108, 111>>>>, <<<<69, 82, 82>>, OK>>}
P(do, g, s, j) == [H("agent", <<>>, "") EXCEPT !.kind = "answer", !.then = do, !.greet = g, !.lines = s, !.seg = At(<<0, 1, 3>>, j)]
Replies == {<<"get", <<OK>>, s>> : s \in Scripts} \cup {<<"clear", <<OK>>, s>> : s \in {s \in Scripts : Len(s) < 3}} \cup {<<d, g, s>> : d \in {"get", "clear"}, g \in Greets, s \in {<<>>, <<OK>>, <<<<68, 32, 112>>, OK>>}}
Texts(s) == FoldSeq(LAMBDA x, y : y \o "/" \o (IF x = <<>> THEN "" ELSE ToString(x)), "", s)
Cases == LET a == SetToSeq({s \in Singles : TRUE})  h == SetToSeq({h \in Histories : Asks(Ops(h))})
             q == SetToSeq(Quests)  c == SetToSeq(Clears)  r == SetToSeq(Replies) IN
  [j \in 1..Len(a) |-> H("getpass", a[j], "prompt " \o SayS(a[j][1]))]
  \o [j \in 1..Len(h) |-> H("getpass", Ops(h[j]), "history" \o Say(h[j]))]
  \o [j \in 1..(Len(h) \div 3) |-> LET x == h[3 * j] IN H("agent", Ops(x), "agent history" \o Say(x))]
  \o [j \in 1..Len(q) |-> R(q[j], j)] \o [j \in 1..Len(c) |-> L(c[j], j)]
  \o [j \in 1..Len(r) |-> [P(r[j][1], r[j][2], r[j][3], j) EXCEPT !.key = "answer to " \o r[j][1] \o " after" \o Texts(r[j][2]) \o ":" \o Texts(r[j][3])]]
Scen == LET A == Cases IN [j \in 1..Len(A) |-> [n |-> j] @@ A[j]]
ASSUME ndJsonSerialize(IOEnv.GEN_OUT, Scen)
VARIABLE x
Init == x = 0
Next == UNCHANGED x
=============================================================================
