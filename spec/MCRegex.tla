------------------------------ MODULE MCRegex ------------------------------
(***************************************************************************)
(* Strings are typed character by character.  The machine accepts exactly  *)
(* the sentences of the grammar.  A weakened design forgets one rule.      *)
(***************************************************************************)
EXTENDS Regex, FiniteSets
CONSTANTS Bound, Design
VARIABLES str, st
vars == <<str, st>>
A == {97, Bsl, Bar, Star, Open, Close, LBr, RBr, Hat}
G == Grammar(A, Bound)
Weak(s, c) ==
  CASE Design = "repeat" /\ s.mode = "n" /\ c = Star /\ s.prev = "piece" -> s
    [] Design = "bracket" /\ s.mode \in {"0", "1"} /\ c = RBr -> Atom(s)
    [] Design = "escape" /\ s.mode = "n" /\ c = Bsl -> Atom(s)
    [] Design = "group" /\ s.mode = "n" /\ c = Close /\ s.depth = 0 -> Atom(s)
    [] Design = "span" /\ s.mode = "r" /\ c = Bsl -> [s EXCEPT !.mode = "0"]
    [] OTHER -> Step(s, c)
Init == str = <<>> /\ st = Start
Next == Len(str) < Bound /\ \E c \in A : str' = Append(str, c) /\ st' = Weak(st, c)
Spec == Init /\ [][Next]_vars
SameLanguage == Accepting(st) <=> str \in G[Len(str) + 1].r
=============================================================================
