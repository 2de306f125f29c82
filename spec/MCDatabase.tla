----------------------------- MODULE MCDatabase -----------------------------
(***************************************************************************)
(* Keyrings are registered and keys changed and looked up.                 *)
(*   "kindless" changes go to the first keyring whatever its kind          *)
(*   "isa"      secret keys are taken for public keys                      *)
(*   "every"    changes go to every keyring of the kind                    *)
(*   "writable" changes go to the first that may be changed                *)
(*   "last"     a primary keyring comes last                               *)
(*   "again"    registering a keyring again moves it to the end            *)
(*   "one"      a search stops at the first keyring that has a match       *)
(*   "single"   a keyring answers with one key of several                  *)
(***************************************************************************)
EXTENDS Database
CONSTANTS Design, Pool, R, N
VARIABLES rings, regs, order, n, good
vars == <<rings, regs, order, n, good>>
Init == /\ rings \in [1..R -> [secret : BOOLEAN, readonly : BOOLEAN, keys : {{}, {[k |-> "c", v |-> 1]}}]]
        /\ regs = <<>> /\ order = <<>> /\ n = 0 /\ good = TRUE
Without1(q, r) == SelectSeq(q, LAMBDA x : x # r)
Register(r, primary) ==
  /\ regs' = Append(regs, [ring |-> r, primary |-> primary])
  /\ order' = CASE primary /\ Design # "last" -> <<r>> \o Without1(order, r)
                [] r \in Rng(order) /\ Design # "again" /\ ~(primary /\ Design = "last") -> order
                [] OTHER -> Append(Without1(order, r), r)
  /\ UNCHANGED <<rings, good>>
Fit(x, op) == (Design = "kindless" \/ x.secret = (IF Design = "isa" THEN FALSE ELSE op.secret)) /\ (Design # "writable" \/ ~x.readonly)
Hits(op) == LET C == {i \in Dom(order) : Fit(rings[order[i]], op)} IN
            IF Design = "every" THEN {order[i] : i \in C} ELSE {order[i] : i \in {i \in C : \A j \in C : i <= j}}
Do(op) == /\ rings' = [r \in 1..R |-> IF r \in Hits(op) THEN [rings[r] EXCEPT !.keys = Apply(@, op, rings[r].readonly)] ELSE rings[r]]
          /\ good' = (good /\ rings' = Changed(rings, OrderOf(regs), op))
          /\ UNCHANGED <<regs, order>>
Ops == [do : {"add", "update", "delete"}, k : Pool, v : {1, 2}, secret : BOOLEAN]
Next == /\ n < N /\ n' = n + 1
        /\ \/ \E r \in 1..R, p \in BOOLEAN : Register(r, p)
           \/ \E op \in Ops : Do(op)
Spec == Init /\ [][Next]_vars
Right == good
Ordered == order = OrderOf(regs)
\* what a search for c's short key ID answers: keys per keyring, in order
Answer(i) == LET S == {x \in rings[order[i]].keys : Same("short", x.k, "c")} IN
             CASE Design = "single" /\ S # {} -> {CHOOSE x \in S : TRUE}
               [] Design = "one" /\ (\E j \in 1..(i - 1) : {x \in rings[order[j]].keys : Same("short", x.k, "c")} # {}) -> {}
               [] OTHER -> S
Finding == \A i \in Dom(order) : Answer(i) = {x \in rings[OrderOf(regs)[i]].keys : Matches(x, [by |-> "short", k |-> "c", text |-> FALSE, term |-> <<>>], <<>>)}
=============================================================================
