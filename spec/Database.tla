------------------------------ MODULE Database ------------------------------
(***************************************************************************)
(* A database is a list of keyrings for public or secret keys, some of     *)
(* which may only be read.  Registering a keyring as the primary one puts  *)
(* it first.  Changes go to the first keyring of the kind; searches go     *)
(* through all in their order.                                             *)
(***************************************************************************)
EXTENDS Keyring
Dom(q) == 1..Len(q)
Rng(q) == {q[j] : j \in Dom(q)}
RECURSIVE OrderOf(_)
OrderOf(regs) ==
  IF regs = <<>> THEN <<>>
  ELSE LET r == regs[Len(regs)]  q == OrderOf(SubSeq(regs, 1, Len(regs) - 1)) IN
       CASE r.primary -> <<r.ring>> \o SelectSeq(q, LAMBDA x : x # r.ring)
         [] r.ring \in Rng(q) -> q
         [] OTHER -> Append(q, r.ring)
\* the keyring a change goes to, 0 if there is none
Target(rings, order, secret) ==
  LET C == {i \in Dom(order) : rings[order[i]].secret = secret} IN
  IF C = {} THEN 0 ELSE order[CHOOSE i \in C : \A j \in C : i <= j]
DoesChange(rings, order, op) == LET t == Target(rings, order, op.secret) IN t # 0 /\ Allowed(rings[t].keys, op, rings[t].readonly)
Changed(rings, order, op) ==
  LET t == Target(rings, order, op.secret) IN
  IF ~DoesChange(rings, order, op) THEN rings ELSE [rings EXCEPT ![t].keys = Apply(@, op, FALSE)]
\* texts are sequences of code points
Lower(c) == IF c \in 65..90 \/ c \in (192..222) \ {215} \/ c \in 1040..1071 THEN c + 32 ELSE c
Occurs(t, u) == \E i \in 0..(Len(u) - Len(t)) : \A j \in 1..Len(t) : Lower(u[i + j]) = Lower(t[j])
\* a search by fingerprint or key ID ("" if by neither) and by text (if asked for)
Matches(x, q, texts) == /\ q.by = "" \/ Same(q.by, x.k, q.k)
                        /\ ~q.text \/ \E j \in Dom(texts) : Occurs(q.term, texts[j])
=============================================================================
