--------------------------- MODULE MCKeyringLock ---------------------------
(***************************************************************************)
(* Processes lock a keyring by linking a file of their own to the lock's   *)
(* name.  Whoever finds the lock taken looks whether its owner is alive    *)
(* and removes it if not, through several calls between which anything may *)
(* happen to the name; every process may die at any time.                  *)
(*   "good"    removing is done under an advisory lock on the file found,  *)
(*             after making sure that the name is still that file's        *)
(*   "steal"   the lock is removed whoever owns it                         *)
(*   "blind"   removed without looking again                               *)
(*   "lockonly" with the advisory lock, without looking again              *)
(*   "lookonly" looking again, without the advisory lock                   *)
(*   "stuck"   never removed                                               *)
(*   "leak"    an operation that fails keeps the lock                      *)
(*   "nest"    the inner of two nested operations gives the lock back      *)
(*   "twostep" the lock is created, then its owner written                 *)
(***************************************************************************)
EXTENDS Naturals, FiniteSets
CONSTANTS Design, Procs, Rounds, Crashes
VARIABLES pc, lock, nextino, saw, flk, alive, depth, round, crashes
vars == <<pc, lock, nextino, saw, flk, alive, depth, round, crashes>>
None == [ino |-> 0, own |-> 0]
Nobody == 0
Init == /\ pc = [p \in Procs |-> "idle"] /\ lock = None /\ nextino = 1
        /\ saw = [p \in Procs |-> None] /\ flk = [p \in Procs |-> 0]
        /\ alive = [p \in Procs |-> TRUE] /\ depth = [p \in Procs |-> 0]
        /\ round = [p \in Procs |-> 0] /\ crashes = 0
Go(p, s) == pc' = [pc EXCEPT ![p] = s]
Want(p) == /\ pc[p] = "idle" /\ round[p] < Rounds
           /\ Go(p, "try") /\ round' = [round EXCEPT ![p] = @ + 1]
           /\ UNCHANGED <<lock, nextino, saw, flk, alive, depth, crashes>>
Try(p) == /\ pc[p] = "try"
          /\ IF lock = None
             THEN /\ lock' = [ino |-> nextino, own |-> IF Design = "twostep" THEN Nobody ELSE p] /\ nextino' = nextino + 1
                  /\ Go(p, IF Design = "twostep" THEN "sign" ELSE "in")
                  /\ depth' = [depth EXCEPT ![p] = IF Design = "twostep" THEN 0 ELSE 1]
                  /\ UNCHANGED <<saw, flk, alive, round, crashes>>
             ELSE /\ Go(p, IF Design = "stuck" THEN "try" ELSE "found") /\ saw' = [saw EXCEPT ![p] = lock]
                  /\ UNCHANGED <<lock, nextino, flk, alive, depth, round, crashes>>
Sign(p) == /\ pc[p] = "sign" /\ lock' = (IF lock = None THEN None ELSE [lock EXCEPT !.own = p])
           /\ Go(p, "in") /\ depth' = [depth EXCEPT ![p] = 1]
           /\ UNCHANGED <<nextino, saw, flk, alive, round, crashes>>
Dead(q) == q \in Procs /\ ~alive[q]
Flocked(ino) == \E q \in Procs : alive[q] /\ flk[q] = ino
Found(p) == /\ pc[p] = "found"
            /\ IF Design \in {"good", "lockonly", "leak", "nest", "twostep"}
               THEN IF Flocked(saw[p].ino) THEN Go(p, "try") /\ UNCHANGED flk ELSE Go(p, "judge") /\ flk' = [flk EXCEPT ![p] = saw[p].ino]
               ELSE Go(p, "judge") /\ UNCHANGED flk
            /\ UNCHANGED <<lock, nextino, saw, alive, depth, round, crashes>>
Judge(p) == /\ pc[p] = "judge"
            /\ IF Dead(saw[p].own) \/ Design = "steal"
               THEN Go(p, IF Design \in {"blind", "lockonly", "steal"} THEN "remove" ELSE "look") /\ UNCHANGED flk
               ELSE Go(p, "try") /\ flk' = [flk EXCEPT ![p] = 0]
            /\ UNCHANGED <<lock, nextino, saw, alive, depth, round, crashes>>
Look(p) == /\ pc[p] = "look"
           /\ IF lock.ino = saw[p].ino THEN Go(p, "remove") /\ UNCHANGED flk ELSE Go(p, "try") /\ flk' = [flk EXCEPT ![p] = 0]
           /\ UNCHANGED <<lock, nextino, saw, alive, depth, round, crashes>>
Remove(p) == /\ pc[p] = "remove" /\ lock' = None /\ Go(p, "try") /\ flk' = [flk EXCEPT ![p] = 0]
             /\ UNCHANGED <<nextino, saw, alive, depth, round, crashes>>
Nest(p) == /\ pc[p] = "in" /\ depth[p] = 1 /\ depth' = [depth EXCEPT ![p] = 2]
           /\ UNCHANGED <<pc, lock, nextino, saw, flk, alive, round, crashes>>
\* an operation ends, well or not
Release(p, fails) ==
  /\ pc[p] \in {"in", "out"}
  /\ depth' = [depth EXCEPT ![p] = @ - 1]
  /\ lock' = (IF (depth[p] = 1 \/ Design = "nest") /\ ~(fails /\ Design = "leak") /\ lock.own = p THEN None ELSE lock)
  /\ Go(p, IF depth[p] = 1 THEN "idle" ELSE "out")
  /\ UNCHANGED <<nextino, saw, flk, alive, round, crashes>>
Crash(p) == /\ crashes < Crashes /\ pc[p] # "idle"
            /\ alive' = [alive EXCEPT ![p] = FALSE] /\ crashes' = crashes + 1
            /\ flk' = [flk EXCEPT ![p] = 0] /\ depth' = [depth EXCEPT ![p] = 0]
            /\ UNCHANGED <<pc, lock, nextino, saw, round>>
Step(p) == alive[p] /\ (Want(p) \/ Try(p) \/ Sign(p) \/ Found(p) \/ Judge(p) \/ Look(p) \/ Remove(p) \/ Release(p, FALSE) \/ Release(p, TRUE) \/ Nest(p))
Finish(p) == alive[p] /\ (Want(p) \/ Try(p) \/ Sign(p) \/ Found(p) \/ Judge(p) \/ Look(p) \/ Remove(p) \/ Release(p, FALSE))
Next == \E p \in Procs : Step(p) \/ (alive[p] /\ Crash(p))
Spec == Init /\ [][Next]_vars /\ \A p \in Procs : WF_vars(Finish(p))
Mutex == Cardinality({p \in Procs : alive[p] /\ depth[p] > 0}) <= 1
Freed == (\A p \in Procs : alive[p] => pc[p] = "idle") => lock = None \/ Dead(lock.own)
Progress == <>(\A p \in Procs : alive[p] => pc[p] = "idle" /\ round[p] = Rounds)
=============================================================================
