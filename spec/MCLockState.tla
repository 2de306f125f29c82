---------------------------- MODULE MCLockState -----------------------------
(***************************************************************************)
(* The machine in fine steps: a whole-key unlock looks at one component    *)
(* after another and may find the passphrase wrong half way.  `granted` is *)
(* a ghost: the components whose right passphrase was given by a completed *)
(* unlock since the last lock.  Designs that are easy to get wrong:        *)
(*   "sequential"  components become usable as they are tried              *)
(*   "escape"      leaving a scope by an exception does not lock           *)
(*   "halflock"    locking the key forgets the subkeys                     *)
(*   "sticky"      a failed unlock is remembered as done                   *)
(***************************************************************************)
EXTENDS LockState, FiniteSets
CONSTANTS N, Design, MaxScopes
Pass == {"a", "b"}
VARIABLES key, st, run, granted, file
vars == <<key, st, run, granted, file>>
Can == <<{"sign"}, {"decrypt"}, {"sign", "decrypt"}>>
Idle == [on |-> FALSE, c |-> 1, p |-> "a", todo |-> {}, scoped |-> FALSE, got |-> {}]
Init == /\ key \in {[n |-> N, pass |-> f, can |-> Can] : f \in [1..N -> Pass \cup {"none"}]}
        /\ st = Locked0 /\ run = Idle /\ granted = {} /\ file = key.pass
Begin == /\ ~run.on
         /\ \E c \in 1..N, p \in Pass, sc \in BOOLEAN :
              /\ sc => Len(st.scopes) < MaxScopes
              /\ run' = [on |-> TRUE, c |-> c, p |-> p, todo |-> Covers(key, c), scoped |-> sc, got |-> {}]
         /\ UNCHANGED <<key, st, granted, file>>
\* components are tried in order
Try == /\ run.on /\ run.todo # {}
       /\ LET d == CHOOSE x \in run.todo : \A y \in run.todo : x <= y IN
          IF key.pass[d] \in {run.p, "none"}
          THEN /\ run' = [run EXCEPT !.todo = @ \ {d}, !.got = @ \cup {d}]
               /\ st' = IF Design = "sequential" THEN [st EXCEPT !.open = @ \cup {d}] ELSE st
               /\ UNCHANGED granted
          ELSE /\ run' = Idle
               /\ st' = IF Design = "sticky" THEN [st EXCEPT !.open = @ \cup Covers(key, run.c)] ELSE st
               /\ UNCHANGED granted
       /\ UNCHANGED <<key, file>>
Commit == /\ run.on /\ run.todo = {}
          /\ st' = [open |-> st.open \cup run.got, scopes |-> IF run.scoped THEN Append(st.scopes, run.c) ELSE st.scopes]
          /\ granted' = granted \cup Covers(key, run.c)
          /\ run' = Idle /\ UNCHANGED <<key, file>>
Lock == /\ ~run.on
        /\ \E c \in 1..N : /\ st' = [st EXCEPT !.open = @ \ (IF Design = "halflock" THEN {c} ELSE Covers(key, c))]
                           /\ granted' = granted \ Covers(key, c)
        /\ UNCHANGED <<key, run, file>>
Leave == /\ ~run.on /\ st.scopes # <<>>
         /\ \E how \in Ends :
            /\ st' = [open |-> IF Design = "escape" /\ how # "exit" THEN st.open ELSE st.open \ Covers(key, Last(st.scopes)),
                      scopes |-> Front(st.scopes)]
            /\ granted' = granted \ Covers(key, Last(st.scopes))
         /\ UNCHANGED <<key, run, file>>
Reread == /\ ~run.on /\ st.scopes = <<>> /\ st' = [st EXCEPT !.open = {}] /\ granted' = {} /\ UNCHANGED <<key, run, file>>
Next == Begin \/ Try \/ Commit \/ Lock \/ Leave \/ Reread
Spec == Init /\ [][Next]_vars
\* never usable without authority, at any instant
NoUseUnauthorised == st.open \subseteq granted
\* and, between operations, usable exactly when authorised
ExactlyAuthorised == ~run.on => st.open = granted
NothingRewritten == file = key.pass
\* the coarse machine of LockState describes completed operations
Coarse == [][\A c \in 1..N, p \in Pass :
             (run.on /\ run.c = c /\ run.p = p /\ ~run'.on /\ Design = "good") =>
               st' = Step(key, st, [op |-> IF run.scoped THEN "enter" ELSE "unlock", c |-> c, p |-> p]).st]_vars
=============================================================================
