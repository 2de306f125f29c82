------------------------------ MODULE GenRegex ------------------------------
(***************************************************************************)
(* All strings over the metacharacters up to a bound, grouped by prefix,   *)
(* and all short sequences of larger fragments.                            *)
(***************************************************************************)
EXTENDS Regex, SequencesExt, FiniteSetsExt, Json, IOUtils, TLC
Big == IOEnv.BIG = "1"
A == {97, Bsl, Bar, Star, Open, Close, LBr, RBr, Hat}
W == A \cup {Plus, Quest, Dash, 46, 36, 122}
All(S, n) == [1..n -> S]
S1(n) == {<<n>>}
\* exhaustive
Short == LET P == UNION {All(W, k) : k \in 0..2} IN
         {[pre |-> p, of |-> "W", tail |-> IF Len(p) < 2 THEN 0 ELSE 2] : p \in P}
Long == {[pre |-> p, of |-> "A", tail |-> IF Big THEN 4 ELSE 3] : p \in All(A, 2)}
Strings(g) == SetToSeq({g.pre \o t : t \in UNION {All(IF g.of = "W" THEN W ELSE A, k) : k \in 0..g.tail}})
\* fragments: a  (a)  ()  [a-z]  []a]  [^]a]  [a\]  \*  \a  \] (  )  [  ]  |  *  ?  newline  escaped newline  wide character
F == << <<97>>, <<40, 97, 41>>, <<40, 41>>, <<91, 97, 45, 122, 93>>, <<91, 93, 97, 93>>, <<91, 94, 93, 97, 93>>, <<91, 97, 92, 93>>,
       <<91, 97, 45, 93>>, <<91, 45, 97, 93>>, <<91, 122, 45, 97, 93>>, <<91, 40, 42, 124, 93>>, <<91, 91, 93>>,
       <<92, 42>>, <<92, 97>>, <<92, 93>>, <<92, 92>>, <<92>>, <<40>>, <<41>>, <<91>>, <<93>>, <<124>>, <<42>>, <<63>>, <<46>>, <<94>>, <<36>>,
       <<10>>, <<92, 10>>, <<233>>, <<8364>>, <<60, 91, 94, 62, 93, 43, 91, 64, 46, 93, 101, 120, 92, 46, 99, 62, 36>> >>
Frags == LET N == 1..Len(F) IN {[pre |-> <<a, b>>, of |-> "F", tail |-> IF Big THEN 2 ELSE 1] : a \in N, b \in N}
Expand(q) == FlattenSeq([j \in 1..Len(q) |-> F[q[j]]])
Of(g) == IF g.of = "F" THEN LET Q == SetToSeq(UNION {All(1..Len(F), k) : k \in 0..g.tail}) IN [j \in 1..Len(Q) |-> Expand(g.pre \o Q[j])]
         ELSE Strings(g)
Nest(n) == [j \in 1..(2 * n + 1) |-> IF j <= n THEN Open ELSE IF j = n + 1 THEN 97 ELSE Close]
Extra == <<[of |-> "nested", strs |-> [n \in 1..40 |-> Nest(n)]],
           [of |-> "nested open", strs |-> [n \in 1..40 |-> <<Open>> \o Nest(n)]],
           [of |-> "nested closed", strs |-> [n \in 1..40 |-> Append(Nest(n), Close)]]>>
Sets == SetToSeq(Short \cup Long \cup Frags)
Scen == [i \in 1..(Len(Sets) + Len(Extra)) |->
          IF i <= Len(Sets) THEN [strs |-> Of(Sets[i]), key |-> Sets[i].of \o " " \o ToString(Sets[i].pre)]
          ELSE [strs |-> Extra[i - Len(Sets)].strs, key |-> Extra[i - Len(Sets)].of]]
ASSUME ndJsonSerialize(IOEnv.GEN_OUT, Scen)
VARIABLE x
Init == x = 0
Next == UNCHANGED x
=============================================================================
