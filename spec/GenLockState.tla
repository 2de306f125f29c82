---------------------------- MODULE GenLockState ----------------------------
EXTENDS LockState, FiniteSets, Json, IOUtils, TLC
Big == IOEnv.BIG = "1"
S == "sign"  D == "decrypt"
Keys == <<[name |-> "rsa", n |-> 2, pass |-> <<"a", "a">>, can |-> <<{S, D}, {S, D}>>],
          [name |-> "dsaelg", n |-> 2, pass |-> <<"a", "a">>, can |-> <<{S}, {D}>>],
          [name |-> "mixed", n |-> 3, pass |-> <<"a", "b", "none">>, can |-> <<{S}, {S, D}, {D}>>],
          [name |-> "lone", n |-> 1, pass |-> <<"b">>, can |-> <<{S, D}>>]>>
O(op, c, p) == [op |-> op, c |-> c, p |-> p]
Ops(k) == {O(op, c, p) : op \in {"unlock", "enter"}, c \in 1..k.n, p \in {"a", "b"}}
          \cup {O("lock", c, "") : c \in 1..k.n}
          \cup UNION {{O(a, c, "") : a \in k.can[c]} : c \in 1..k.n}
          \cup {O(op, 1, "") : op \in Ends \cup {"export", "convert", "reread"}}
RECURSIVE Hist(_, _, _)
\* all histories of exactly n operations, as <<ops, state>> pairs
Hist(k, n, ops) == IF n = 0 THEN {<<<<>>, Locked0>>}
                   ELSE UNION {{<<Append(h[1], o), Step(k, h[2], o).st>> : o \in {o \in ops : Possible(k, h[2], o)}} : h \in Hist(k, n - 1, ops)}
\* every component is tried at the end, inside the open scopes and outside
Probe(k) == SetToSeq({O(a, c, "") : <<a, c>> \in {<<a, c>> \in {S, D} \X (1..k.n) : a \in k.can[c]}})
RECURSIVE Close(_, _)
Close(k, s) == IF s = <<>> THEN <<>> ELSE <<O("exit", 1, "")>> \o Probe(k) \o Close(k, Front(s))
Complete(k, h) == h[1] \o Probe(k) \o Close(k, h[2].scopes)
\* long histories: a pseudo-random walk
Rnd(x) == (x * 75 + 74) % 65537
RECURSIVE Walk(_, _, _, _, _)
Walk(k, s, n, x, seq) == IF n = 0 THEN <<>>
  ELSE LET ok == SelectSeq(seq, LAMBDA o : Possible(k, s, o))  o == ok[1 + (x % Len(ok))] IN
       <<o>> \o Walk(k, Step(k, s, o).st, n - 1, Rnd(x), seq)
EndState(k, ops) == LET r == RunAll(k, Locked0, ops) IN IF r = <<>> THEN Locked0 ELSE Last(r).st
Walks(k, m, n) == LET seq == SetToSeq(Ops(k)) IN
                  [i \in 1..m |-> LET w == Walk(k, Locked0, n, Rnd(i * 311 + k.n), seq) IN w \o Probe(k) \o Close(k, EndState(k, w).scopes)]
Depth(k) == CASE k.name = "rsa" -> IF Big THEN 4 ELSE 3 [] k.name = "lone" -> IF Big THEN 5 ELSE 4 [] OTHER -> IF Big THEN 3 ELSE 2
Histories == UNION {{<<k, Complete(k, h)>> : h \in Hist(k, Depth(k), Ops(k))} : k \in {Keys[i] : i \in 1..Len(Keys)}}
AllHist == SetToSeq(Histories)
           \o FlattenSeq([i \in 1..Len(Keys) |-> LET w == Walks(Keys[i], IF Big THEN 400 ELSE 60, IF Big THEN 40 ELSE 25) IN
                                                 [j \in 1..Len(w) |-> <<Keys[i], w[j]>>]])
\* protections: usage octet, cipher, kind and digest of the passphrase conversion, version
P(kn, v, u, c, t, h) == [fam |-> "protect", kname |-> kn, version |-> v, usage |-> u, cipher |-> c, s2k |-> t, digest |-> h]
Ciphers == {1, 2, 3, 4, 7, 8, 9, 10, 11, 12, 13}
Digests == {1, 2, 3, 8, 9, 10, 11}
Protect == {P("rsaA", 4, u, c, 3, 2) : u \in {254, 255}, c \in Ciphers}
           \cup {P(kn, 4, u, 9, t, h) : kn \in {"rsaC", "dsaA", "elgB"}, u \in {254, 255}, t \in {0, 1, 3}, h \in Digests}
           \cup {P(kn, 4, c, c, 0, 1) : kn \in {"rsaB", "dsaQ256", "elgA"}, c \in {1, 2, 3, 4, 7, 9}}
           \cup {P("rsaA", v, u, c, 3, 8) : v \in {2, 3}, u \in {255}, c \in {2, 3, 9, 10}}
           \cup {P("rsaB", v, c, c, 0, 1) : v \in {2, 3}, c \in {1, 2, 3, 4}}
           \cup {P(kn, v, 0, 0, 0, 1) : kn \in {"rsaA", "rsa768"}, v \in {2, 3, 4}}
           \cup {P(kn, 4, 0, 0, 0, 1) : kn \in {"dsaA", "dsaQ224", "elgA"}}
Scen == LET A == AllHist  Q == SetToSeq(Protect) IN
  [i \in 1..Len(A) |-> [fam |-> "history", k |-> A[i][1], ops |-> A[i][2],
      key |-> A[i][1].name \o " " \o FoldLeft(LAMBDA a, o : a \o " " \o o.op \o ToString(o.c) \o o.p, "", A[i][2])]]
  \o [i \in 1..Len(Q) |-> Q[i] @@ [key |-> "protect " \o ToString(<<Q[i].kname, Q[i].version, Q[i].usage, Q[i].cipher, Q[i].s2k, Q[i].digest>>)]]
ASSUME ndJsonSerialize(IOEnv.GEN_OUT, Scen)
VARIABLE x
Init == x = 0
Next == UNCHANGED x
=============================================================================
