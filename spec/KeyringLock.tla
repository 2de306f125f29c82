---------------------------- MODULE KeyringLock ----------------------------
(***************************************************************************)
(* What those who lock a keyring see of each other: they ask for the lock, *)
(* get it (again, when they have it already), give it back as often as     *)
(* they got it, give up waiting if a time was set, or die.                 *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets
Start(n) == [depth |-> [p \in 1..n |-> 0], dead |-> {}, waits |-> {}, busy |-> {}, leaving |-> {}]
Others(st, p) == {q \in DOMAIN st.depth : q # p /\ q \notin st.dead /\ (st.depth[q] > 0 \/ q \in st.waits \cup st.leaving)}
Holders(st) == {q \in DOMAIN st.depth : q \notin st.dead /\ st.depth[q] > 0}
After(st, e, p) ==
  CASE e = "want" -> [st EXCEPT !.waits = @ \cup {p}, !.busy = ((@ \cup st.waits) \ {p}) \cup (IF Others(st, p) # {} THEN {p} ELSE {})]
    [] e = "got" -> [st EXCEPT !.waits = @ \ {p}, !.depth[p] = @ + 1]
    [] e = "gaveup" -> [st EXCEPT !.waits = @ \ {p}]
    [] e = "releasing" -> [st EXCEPT !.depth[p] = IF @ > 0 THEN @ - 1 ELSE 0, !.leaving = @ \cup {p}]
    [] e = "released" -> [st EXCEPT !.leaving = @ \ {p}]
    [] e \in {"killed", "end"} -> [st EXCEPT !.dead = @ \cup {p}, !.depth[p] = 0, !.waits = @ \ {p}]
    [] OTHER -> st
=============================================================================
