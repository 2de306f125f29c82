------------------------------ MODULE MCModes -------------------------------
(***************************************************************************)
(* All short data in all splits through a toy block cipher: the result     *)
(* does not depend on the split and is undone by decryption, for two       *)
(* objects used in turn.  Flawed designs:                                  *)
(*   "restart"  every call starts from the initial value again             *)
(*   "shared"   both objects keep their register in the same place         *)
(*   "drop"     keystream left over at the end of a call is dropped        *)
(***************************************************************************)
EXTENDS Modes, FiniteSets
CONSTANTS Mode, Seg, MaxLen, Design
BS == 2
Oct == 0..2
\* a toy permutation of the blocks over 0..3, and its inverse
Pairs == (0..3) \X (0..3)
E == [b \in Pairs |-> <<(b[2] + 1) % 4, (b[1] * 3 + b[2] + 1) % 4>>]
D == [b \in Pairs |-> LET y == (b[1] + 3) % 4 IN <<((b[2] + 7 - y) * 3) % 4, y>>]
ASSUME \A b \in Pairs : D[E[b]] = b /\ E[D[b]] = b
M == [mode |-> Mode, bs |-> BS, seg |-> Seg, iv |-> <<1, 0>>]
VARIABLES st, plain, out, turn
vars == <<st, plain, out, turn>>
Obj == {1, 2}
Init == st = [o \in Obj |-> Start(M, E)] /\ plain = [o \in Obj |-> <<>>] /\ out = [o \in Obj |-> <<>>] /\ turn = 0
Feed(o, d) ==
  LET from == CASE Design = "restart" -> Start(M, E) [] OTHER -> st[o]
      r == Call(M, from, d, FALSE, E, D)
      new == IF Design = "drop" THEN [r.st EXCEPT !.ks = <<>>] ELSE r.st
  IN /\ r.ok
     /\ st' = IF Design = "shared" THEN [p \in Obj |-> new] ELSE [st EXCEPT ![o] = new]
     /\ plain' = [plain EXCEPT ![o] = @ \o d] /\ out' = [out EXCEPT ![o] = @ \o r.out]
Next == \E o \in Obj, n \in 1..MaxLen : \E d \in [1..n -> Oct] :
          /\ Len(plain[1]) + Len(plain[2]) + n <= MaxLen
          \* the second object is fed a fixed octet to bound the space
          /\ o = 2 => \A i \in 1..n : d[i] = 1
          /\ ~st[o].ended
          /\ Feed(o, d) /\ turn' = turn + 1
Spec == Init /\ [][Next]_vars
WholeMode == [mode |-> Mode, bs |-> BS, seg |-> Seg, iv |-> <<1, 0>>]
Once(d) == Call(WholeMode, Start(M, E), d, FALSE, E, D).out
IndependentOfSplits == \A o \in Obj : st[o].ended \/ plain[o] = <<>> \/ out[o] = Once(plain[o])
Undone == \A o \in Obj : plain[o] # <<>> =>
            LET body == IF Mode = "OPENPGP" THEN Drop(out[o], BS + 2) ELSE out[o] IN
            Call(WholeMode, Start(M, E), body, TRUE, E, D).out = plain[o]
=============================================================================
