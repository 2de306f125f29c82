---------------------------- MODULE MCKeyOrder ----------------------------
(***************************************************************************)
(* A reader that takes the packets of a key one by one and keeps only what *)
(* it needs, against the grammar of section 11.1 written as a split of the *)
(* whole sequence; what it builds, written again, is what it read.         *)
(*   "previous"  looks at the packet before only                           *)
(*   "unbound"   a subkey may lack its binding                             *)
(*   "unrevoked" a revocation cannot follow a binding                      *)
(*   "grouped"   identities are written before attributes                  *)
(*   "stop"      stops at trust packets                                    *)
(*   "newest"    signatures are kept newest first                          *)
(***************************************************************************)
EXTENDS KeyOrder
CONSTANTS Design, N, Alphabet
VARIABLES q, s, cs
vars == <<q, s, cs>>
Init == q = <<>> /\ s = "start" /\ cs = <<>>
Take(t, pos) ==
  IF t \in {"K", "U", "A", "S"} THEN Append(cs, [kind |-> t, pos |-> pos, sigs |-> <<>>])
  ELSE IF t \in Sigs /\ cs # <<>> THEN [cs EXCEPT ![Len(cs)].sigs = IF Design = "newest" THEN <<pos>> \o @ ELSE Append(@, pos)]
  ELSE cs
Pre(t) == CASE t \in {"d", "r"} -> {"K", "d", "r"} [] t \in {"c", "x"} -> {"U", "A", "c", "x"} [] t \in {"U", "A"} -> {"K", "d", "r", "c", "x", "U", "A"}
            [] t = "S" -> {"K", "d", "r", "c", "x", "U", "A", "b", "v"} [] t = "b" -> {"S", "b"} [] t = "v" -> {"b", "v"} [] OTHER -> {}
Next == /\ Len(q) < N
        /\ \E t \in Alphabet :
             /\ q' = Append(q, t)
             /\ s' = IF t = "T" /\ s # "start" THEN (IF Design = "stop" /\ s \notin {"no", "open"} THEN "stopped" ELSE s)
                     ELSE IF s = "stopped" THEN s
                     ELSE IF Design = "unrevoked" /\ t = "v" THEN "no"
                     ELSE IF Design = "previous" /\ q # <<>> THEN
                       (IF s \in {"no", "open"} THEN s ELSE LET n == Step(s, t, 4) IN IF n # "no" THEN n
                          ELSE IF t \in {"U", "A"} /\ Last(q) \in {"b", "v", "c"} THEN "id" ELSE "no")
                     ELSE Step(s, t, 4)
             /\ cs' = IF s = "stopped" THEN cs ELSE Take(t, Len(q) + 1)
Spec == Init /\ [][Next]_vars
Accepts == s \in {"key", "id", "bind", "rev", "stopped"} \/ (Design = "unbound" /\ s = "sub")
\* the grammar: a key with its signatures, identities with theirs, subkeys
\* each with bindings and then revocations
AllIn(p, S) == \A j \in 1..Len(p) : p[j] \in S
SubOk(c) == LET g == [j \in 1..Len(c.sigs) |-> q[c.sigs[j]]] IN
            g # <<>> /\ \E m \in 1..Len(g) : AllIn(SubSeq(g, 1, m), {"b"}) /\ AllIn(SubSeq(g, m + 1, Len(g)), {"v"})
Grammar ==
  LET C == Comps(q) IN
  /\ q # <<>> /\ q[1] = "K" /\ ~\E j \in 2..Len(q) : q[j] = "K" /\ ~AllIn(<<q[j]>>, {"T"})
  /\ AllIn(q, {"K", "U", "A", "S", "T", "d", "r", "c", "x", "b", "v"})
  /\ \E u \in 1..Len(C) : \A j \in 1..Len(C) :
       /\ (j = 1) = (C[j].kind = "K")
       /\ j > 1 => (j <= u) = (C[j].kind \in {"U", "A"})
       /\ C[j].kind = "K" => \A m \in 1..Len(C[j].sigs) : q[C[j].sigs[m]] \in {"d", "r"}
       /\ C[j].kind \in {"U", "A"} => \A m \in 1..Len(C[j].sigs) : q[C[j].sigs[m]] \in {"c", "x"}
       /\ C[j].kind = "S" => SubOk(C[j])
Written == LET w == IF Design = "grouped" THEN Grouped(cs) ELSE cs IN Write(w)
SameLanguage == s # "open" => (Accepts <=> Grammar)
SameAgain == (Grammar /\ s # "open") => Written = SelectSeq([j \in 1..Len(q) |-> j], LAMBDA j : q[j] # "T")
Verdict == Legal(q, 4) = "yes" => Grammar
Refused == Legal(q, 4) = "no" => ~Grammar
=============================================================================
