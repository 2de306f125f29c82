----------------------------- MODULE MCRewrite -----------------------------
(***************************************************************************)
(* Programs of calls on a directory; content is written block by block and *)
(* reaches the file in that order.  One process runs the program, may die  *)
(* at any moment (also within a write), and any call may fail.             *)
(*   "good"    a temporary file is filled, synced and renamed over         *)
(*   "inplace" the file is truncated and filled again                      *)
(*   "append"  the change is written at the end of the file                *)
(*   "away"    the file is renamed away before the new one is renamed in   *)
(*   "copy"    the temporary file is copied over the file                  *)
(*   "blind"   failing writes are not noticed                              *)
(*   "clean"   cleaning up after a failure removes the file                *)
(***************************************************************************)
EXTENDS Rewrite, Integers
CONSTANTS Design, Blocks, Faults
VARIABLES dir, prog, pc, end, faults
vars == <<dir, prog, pc, end, faults>>
\* contents are sequences of blocks
Old == [i \in 1..Blocks |-> <<"old", i>>]
New == IF Design = "append" THEN Old \o <<<<"new", 1>>, <<"new", 2>>>> ELSE [i \in 1..(Blocks + 1) |-> <<"new", i>>]
C(op, f, x) == [op |-> op, f |-> f, x |-> x]
Fill(f) == [i \in 1..Len(New) |-> C("write", f, <<New[i]>>)]
Program ==
  CASE Design \in {"good", "blind", "clean"} -> <<C("create", "tmp", <<>>)>> \o Fill("tmp") \o <<C("sync", "tmp", <<>>), C("rename", "tmp", "ring")>>
    [] Design = "inplace" -> <<C("create", "ring", <<>>)>> \o Fill("ring") \o <<C("sync", "ring", <<>>)>>
    [] Design = "append" -> [i \in 1..2 |-> C("write", "ring", <<New[Blocks + i]>>)] \o <<C("sync", "ring", <<>>)>>
    [] Design = "away" -> <<C("create", "tmp", <<>>)>> \o Fill("tmp") \o <<C("rename", "ring", "bak"), C("rename", "tmp", "ring"), C("unlink", "bak", <<>>)>>
    [] Design = "copy" -> <<C("create", "tmp", <<>>)>> \o Fill("tmp") \o <<C("create", "ring", <<>>)>> \o Fill("ring") \o <<C("unlink", "tmp", <<>>)>>
Cleaning == IF Design = "clean" THEN <<C("unlink", "tmp", <<>>), C("unlink", "ring", <<>>)>> ELSE <<C("unlink", "tmp", <<>>)>>
None == <<<<"none", 0>>>>
Init == dir = [f \in {"ring", "tmp", "bak"} |-> IF f = "ring" THEN Old ELSE None] /\ prog = Program /\ pc = 1 /\ end = "" /\ faults = 0
Effect(c) ==
  CASE c.op = "create" -> [dir EXCEPT ![c.f] = <<>>]
    [] c.op = "write" -> [dir EXCEPT ![c.f] = @ \o c.x]
    [] c.op = "rename" -> [dir EXCEPT ![c.x] = dir[c.f], ![c.f] = None]
    [] c.op = "unlink" -> [dir EXCEPT ![c.f] = None]
    [] OTHER -> dir
Running == end \notin {"ok", "err", "died"}
Step == /\ Running /\ pc <= Len(prog)
        /\ dir' = Effect(prog[pc]) /\ pc' = pc + 1
        /\ UNCHANGED <<prog, end, faults>>
Finish == /\ Running /\ pc > Len(prog)
          /\ end' = (IF end = "cleaning" THEN "err" ELSE "ok")
          /\ UNCHANGED <<dir, prog, pc, faults>>
Half(c) == IF c.op = "write" THEN [dir EXCEPT ![c.f] = @ \o <<<<"half", 0>>>>] ELSE dir
Die == /\ Running /\ end' = "died"
       /\ dir' \in {dir} \cup (IF pc <= Len(prog) THEN {Half(prog[pc])} ELSE {})
       /\ UNCHANGED <<prog, pc, faults>>
Fail == /\ Running /\ pc <= Len(prog) /\ faults < Faults
        /\ faults' = faults + 1
        /\ dir' \in {dir, Half(prog[pc])}
        /\ IF Design = "blind" /\ prog[pc].op = "write" THEN pc' = pc + 1 /\ UNCHANGED <<prog, end>>
           ELSE IF end = "cleaning" THEN pc' = pc + 1 /\ UNCHANGED <<prog, end>>
           ELSE prog' = Cleaning /\ pc' = 1 /\ end' = "cleaning"
Next == Step \/ Finish \/ Die \/ Fail
Spec == Init /\ [][Next]_vars /\ WF_vars(Step \/ Finish)
\* at every moment: what a process that dies now would leave behind
Whole == dir["ring"] \in {Old, New}
Truthful == ~Running => dir["ring"] \in Outcomes(Old, New, end)
Ends == <>(end \in {"ok", "err", "died"})
=============================================================================
