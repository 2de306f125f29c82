--------------------------- MODULE GenSessionKey ---------------------------
EXTENDS SessionKey, FiniteSets, S2K, Json, IOUtils, TLC
Big == IOEnv.BIG = "1"
Ciphers == DOMAIN KeyLen
\* keys of the test set and their lengths in octets
Whos == [rsaE |-> 128, rsaF |-> 128, rsa768 |-> 129, elgA |-> 96, only |-> 128]
Oct(n, x) == [j \in 1..n |-> (j * 37 + x * 11 + 9) % 256]
Pad(n, x) == [j \in 1..n |-> 1 + ((j * 53 + x * 7) % 255)]
Shape(n, x) == CASE x = 0 -> Oct(n, 0) [] x = 1 -> [j \in 1..n |-> 0] [] x = 2 -> [j \in 1..n |-> 255]
                 [] x = 3 -> [Oct(n, 1) EXCEPT ![1] = 0] [] x = 4 -> [Oct(n, 2) EXCEPT ![n] = 0, ![n - 1] = 0] [] OTHER -> Oct(n, x)
\* what is put in: every part can be other than it should be
G == [lead |-> 0, type |-> 2, hole |-> 0, sep |-> 0, cipher |-> 9, shape |-> 0, more |-> 0, high |-> 0, low |-> 0, swap |-> FALSE, whole |-> "yes"]
K(g) == LET n == IF g.cipher \in Ciphers THEN KeyLen[g.cipher] ELSE 16  k == Shape(n, g.shape) IN
        IF g.more < 0 THEN SubSeq(k, 1, n + g.more) ELSE k \o Oct(g.more, 5)
M(g) == LET k == K(g)  a == (SumOf(k) \div 256 + g.high) % 256  b == (SumOf(k) + g.low + 256) % 256 IN
        <<g.cipher>> \o k \o (IF g.swap THEN <<b, a>> ELSE <<a, b>>)
Block(size, g, x) ==
  LET m == CASE g.whole = "yes" -> M(g) [] g.whole = "nothing" -> <<>> [] g.whole = "cipher" -> <<g.cipher>>
             [] g.whole = "sum" -> <<g.cipher, 0, 0>> [] g.whole = "nosum" -> <<g.cipher>> \o K(g) [] OTHER -> <<0, 0>>
      n == size - 3 - Len(m)
      ps == [Pad(n, x) EXCEPT ![IF g.hole = 0 THEN 1 ELSE IF g.hole > n THEN n ELSE g.hole] = IF g.hole = 0 THEN @ ELSE 0] IN
  <<g.lead, g.type>> \o ps \o <<g.sep>> \o m
Ids == {0, 5, 6, 14, 99, 110, 255}
Goods == {[G EXCEPT !.cipher = c, !.shape = s] : c \in Ciphers, s \in 0..(IF Big THEN 9 ELSE 4)}
Bads == {[G EXCEPT !.cipher = c] : c \in Ids}
        \cup {[G EXCEPT !.cipher = c, !.high = h, !.low = l] : c \in {3, 9}, h \in {0, 1, 255}, l \in {0, 1, 255, 128}}
        \cup {[G EXCEPT !.cipher = c, !.swap = TRUE] : c \in Ciphers}
        \cup {[G EXCEPT !.cipher = c, !.more = n] : c \in Ciphers, n \in {-1, 1, -8, 8, -11}}
        \cup {[G EXCEPT !.lead = 1], [G EXCEPT !.sep = 1], [G EXCEPT !.sep = 255]} \cup {[G EXCEPT !.type = t] : t \in {0, 1, 3}}
        \cup {[G EXCEPT !.hole = h] : h \in {1, 2, 7, 8, 9, 10, 20, 200}}
        \cup {[G EXCEPT !.whole = w, !.cipher = c] : w \in {"nothing", "cipher", "sum", "nosum", "zeros"}, c \in {9, 3}}
Outers == {"plain", "extra", "missing", "trailing", "cut", "empty"}
P(who, g, x, outer, then) ==
  [fam |-> "key", who |-> who, size |-> Whos[who], block |-> Block(Whos[who], g, x), outer |-> outer, then |-> then,
   cipher |-> IF g.cipher \in Ciphers /\ (g.more = 0 \/ (g.cipher = 4 /\ g.more > -9) \/ (g.cipher = 3 /\ g.more < 0)) THEN g.cipher ELSE 9,
   session |-> IF g.cipher \in Ciphers /\ (g.more = 0 \/ (g.cipher = 4 /\ g.more > -9) \/ (g.cipher = 3 /\ g.more < 0)) THEN K(g) ELSE K(G), about |-> g]
ByKey == {P(w, g, x, "plain", FALSE) : w \in DOMAIN Whos, g \in Goods \cup Bads, x \in 0..(IF Big THEN 3 ELSE 0)}
         \cup {P(w, [G EXCEPT !.cipher = c], 1, o, t) : w \in DOMAIN Whos, c \in {7, 9, 10}, o \in Outers, t \in {FALSE, TRUE}}
         \cup {P(w, g, 2, "plain", TRUE) : w \in {"rsaE", "elgA"}, g \in Bads}
\* for a passphrase: the cipher octet and the key; kc is the cipher they are encrypted with
S(kc, c, shape, more, then) ==
  LET g == [G EXCEPT !.cipher = c, !.shape = shape, !.more = more]  data == c \in Ciphers /\ more = 0 IN
  [fam |-> "pass", kc |-> kc, block |-> <<c>> \o K(g), then |-> then, outer |-> "plain",
   cipher |-> IF data THEN c ELSE 9, session |-> IF data THEN K(g) ELSE K(G), about |-> g]
ByPass == {S(kc, c, 0, 0, t) : kc \in {7, 9, 3}, c \in Ciphers \cup Ids, t \in {FALSE, TRUE}}
          \cup {S(kc, c, s, 0, FALSE) : kc \in {8, 10}, c \in Ciphers, s \in 1..4}
          \cup {S(9, c, 0, m, t) : c \in Ciphers, m \in {-1, 1, -8, 8, 2}, t \in {FALSE, TRUE}}
Scen == LET A == SetToSeq(ByKey) \o SetToSeq(ByPass) IN
  [j \in 1..Len(A) |-> A[j] @@ [key |-> A[j].fam \o (IF A[j].fam = "key" THEN " " \o A[j].who ELSE ToString(A[j].kc)) \o " " \o A[j].outer \o (IF A[j].then THEN " then a good one " ELSE " ")
                                          \o ToString(<<A[j].about.lead, A[j].about.type, A[j].about.hole, A[j].about.sep, A[j].about.cipher, A[j].about.shape, A[j].about.more,
                                                        A[j].about.high, A[j].about.low, A[j].about.swap, A[j].about.whole>>), n |-> j]]
ASSUME ndJsonSerialize(IOEnv.GEN_OUT, Scen)
VARIABLE x
Init == x = 0
Next == UNCHANGED x
=============================================================================
