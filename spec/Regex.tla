------------------------------- MODULE Regex -------------------------------
(***************************************************************************)
(* The regular-expression language of the standard (RFC 4880, section 8):  *)
(* a machine reading one character at a time, and the grammar itself.      *)
(* Characters are code points.                                             *)
(***************************************************************************)
EXTENDS Naturals, Sequences
Bar == 124  Star == 42  Plus == 43  Quest == 63  Open == 40  Close == 41
LBr == 91  RBr == 93  Bsl == 92  Hat == 94  Dash == 45
\* mode: "n" outside, "e" after a backslash, "0" after "[", "1" after "[^", "r" inside a range
\* prev: what a repetition would apply to: "none", "atom", "piece"
\* odd:  a place where the text leaves room: "]" outside a range, a decreasing span
Start == [mode |-> "n", depth |-> 0, prev |-> "none", ok |-> TRUE, odd |-> FALSE, a |-> 0, dash |-> FALSE]
Atom(s) == [s EXCEPT !.mode = "n", !.prev = "atom"]
InRange(s, c) == IF s.dash THEN [s EXCEPT !.mode = "r", !.dash = FALSE, !.odd = @ \/ c < s.a, !.a = c]
                 ELSE [s EXCEPT !.mode = "r", !.dash = (c = Dash /\ s.mode = "r"), !.a = IF c = Dash /\ s.mode = "r" THEN @ ELSE c]
Step(s, c) ==
  IF ~s.ok THEN s
  ELSE CASE s.mode = "e" -> Atom(s)
       [] s.mode = "0" -> IF c = Hat THEN [s EXCEPT !.mode = "1"] ELSE InRange(s, c)
       [] s.mode = "1" -> InRange(s, c)
       [] s.mode = "r" -> IF c = RBr THEN Atom([s EXCEPT !.dash = FALSE]) ELSE InRange(s, c)
       [] c = Bsl -> [s EXCEPT !.mode = "e"]
       [] c = LBr -> [s EXCEPT !.mode = "0", !.dash = FALSE]
       [] c = Open -> [s EXCEPT !.depth = @ + 1, !.prev = "none"]
       [] c = Close -> IF s.depth = 0 THEN [s EXCEPT !.ok = FALSE] ELSE Atom([s EXCEPT !.depth = @ - 1])
       [] c = Bar -> [s EXCEPT !.prev = "none"]
       [] c \in {Star, Plus, Quest} -> IF s.prev = "atom" THEN [s EXCEPT !.prev = "piece"] ELSE [s EXCEPT !.ok = FALSE]
       [] c = RBr -> Atom([s EXCEPT !.odd = TRUE])
       [] OTHER -> Atom(s)
RECURSIVE Run(_, _, _)
Run(s, t, i) == IF i > Len(t) THEN s ELSE Run(Step(s, t[i]), t, i + 1)
Accepting(s) == s.ok /\ s.mode = "n" /\ s.depth = 0
Verdict(t) == LET s == Run(Start, t, 1) IN
              IF ~Accepting(s) THEN "refuse" ELSE IF s.odd THEN "either" ELSE "accept"

\* the grammar: sentences of each length over an alphabet
Cat(A, B) == {p[1] \o p[2] : p \in A \X B}
Upto(A, n, f(_)) == UNION {f(k) : k \in 0..n}
\* contents of "[" ... "]" with n characters
Contents(A, n) ==
  LET All(m) == [1..m -> A]
      Plain(m) == {x \in All(m) : \A i \in 2..m : x[i] # RBr}
  IN IF n = 0 THEN {} ELSE {x \in Plain(n) : x[1] # Hat} \cup (IF n = 1 THEN {} ELSE {<<Hat>> \o x : x \in Plain(n - 1)})
\* G[n] = [r: regexes, b: branches, p: pieces, t: atoms] of length n
Plains(A) == A \ {Bar, Star, Plus, Quest, Open, Close, LBr, Bsl}
Bits(A, s) == {x \in s : \A i \in 1..Len(x) : x[i] \in A}
RECURSIVE Grammar(_, _)
Grammar(A, n) ==
  IF n = 0 THEN <<[r |-> {<<>>}, b |-> {<<>>}, p |-> {}, t |-> {}]>>
  ELSE LET G == Grammar(A, n - 1)
           g(k) == G[k + 1]
           T == (IF n = 1 THEN {<<c>> : c \in Plains(A)} ELSE {})
                \cup (IF n = 2 THEN {<<Bsl, c>> : c \in A} ELSE {})
                \cup (IF n >= 2 THEN {<<Open>> \o x \o <<Close>> : x \in g(n - 2).r} ELSE {})
                \cup (IF n >= 3 THEN {<<LBr>> \o x \o <<RBr>> : x \in Contents(A, n - 2)} ELSE {})
           P == T \cup {x \o <<c>> : x \in g(n - 1).t, c \in {Star, Plus, Quest}}
           B == P \cup UNION {Cat(g(k).p, g(n - k).b) : k \in 1..(n - 1)}
           R == B \cup UNION {{p[1] \o <<Bar>> \o p[2] : p \in g(k).b \X g(n - 1 - k).r} : k \in 0..(n - 1)}
       IN G \o <<[r |-> Bits(A, R), b |-> Bits(A, B), p |-> Bits(A, P), t |-> Bits(A, T)]>>
=============================================================================
