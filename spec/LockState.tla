----------------------------- MODULE LockState ------------------------------
(***************************************************************************)
(* What may be done with the components of a transferable secret key.      *)
(* Component 1 is the primary key; acting on it acts on the whole key.     *)
(* A key is described by [n, pass, can]: the number of components, the     *)
(* passphrase of each and what each can do ("sign", "decrypt").            *)
(* State: [open: set of usable components, scopes: stack of the components *)
(* of scoped unlocks, innermost last].                                     *)
(***************************************************************************)
EXTENDS Naturals, Sequences, SequencesExt
Covers(k, c) == IF c = 1 THEN 1..k.n ELSE {c}
\* "none" stands for no protection: any passphrase will do
Right(k, c, p) == \A d \in Covers(k, c) : k.pass[d] \in {p, "none"}
Locked0 == [open |-> {}, scopes |-> <<>>]

\* a scope ends normally, by an error, or by an interruption of the program
Ends == {"exit", "raise", "interrupt"}
\* operations: [op, c, p]
Step(k, s, o) ==
  CASE o.op = "unlock" -> IF Right(k, o.c, o.p) THEN [st |-> [s EXCEPT !.open = @ \cup Covers(k, o.c)], res |-> "ok"]
                          ELSE [st |-> s, res |-> "err"]
    [] o.op = "lock" -> [st |-> [s EXCEPT !.open = @ \ Covers(k, o.c)], res |-> "ok"]
    [] o.op \in {"sign", "decrypt"} -> [st |-> s, res |-> IF o.c \in s.open THEN "ok" ELSE "err"]
    [] o.op = "enter" -> IF Right(k, o.c, o.p)
                         THEN [st |-> [open |-> s.open \cup Covers(k, o.c), scopes |-> Append(s.scopes, o.c)], res |-> "ok"]
                         ELSE [st |-> s, res |-> "err"]
    [] o.op \in Ends -> [st |-> [open |-> s.open \ Covers(k, Last(s.scopes)), scopes |-> Front(s.scopes)],
                                      res |-> IF o.op = "exit" THEN "ok" ELSE "raised"]
    [] o.op = "reread" -> [st |-> [s EXCEPT !.open = {}], res |-> "ok"]
    \* writing and conversion to a public key do not depend on the state
    [] OTHER -> [st |-> s, res |-> "ok"]
Possible(k, s, o) ==
  /\ o.op \in Ends => s.scopes # <<>>
  /\ o.op = "reread" => s.scopes = <<>>
  /\ o.op = "enter" => Len(s.scopes) < 3
  /\ o.op \in {"sign", "decrypt"} => o.op \in k.can[o.c]
RECURSIVE RunAll(_, _, _)
\* the states after each operation, with results
RunAll(k, s, ops) == IF ops = <<>> THEN <<>>
                     ELSE LET r == Step(k, s, Head(ops)) IN <<r>> \o RunAll(k, r.st, Tail(ops))
=============================================================================
