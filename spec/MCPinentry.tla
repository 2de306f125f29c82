----------------------------- MODULE MCPinentry -----------------------------
(***************************************************************************)
(* A prompter that works entry by entry, and what those who ask may rely   *)
(* on.  `known' is what was obtained under a cache entry with caching      *)
(* asked for and not cleared since.                                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Design, Ids, Words, MaxRep, Steps
VARIABLES mem, known, asking, first, left, agree, seen, result, n
vars == <<mem, known, asking, first, left, agree, seen, result, n>>
None == [id |-> "-", use |-> FALSE, rep |-> 0]
Slot(id) == IF Design = "shared" THEN "slot" ELSE id
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Del(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
Nothing == [how |-> "none", got |-> "", id |-> "", use |-> FALSE]
Init == /\ mem = [x \in {} |-> ""] /\ known = [x \in {} |-> ""] /\ asking = None /\ first = "" /\ left = 0 /\ agree = TRUE /\ seen = <<>> /\ result = Nothing /\ n = 0
Idle == asking = None
Begin(id, use, rep) ==
  /\ Idle /\ n < Steps /\ n' = n + 1
  /\ LET hit == (use \/ Design = "always") /\ id # "" /\ Slot(id) \in DOMAIN mem IN
     IF hit THEN /\ result' = [how |-> "cache", got |-> mem[Slot(id)], id |-> id, use |-> use]
                 /\ UNCHANGED <<mem, known, asking, first, left, agree, seen>>
     ELSE /\ asking' = [id |-> id, use |-> use, rep |-> rep] /\ first' = "" /\ left' = rep + 1 /\ agree' = TRUE /\ seen' = <<>> /\ result' = Nothing
          /\ UNCHANGED <<mem, known>>
Enter(w) ==
  /\ ~Idle /\ n < Steps /\ n' = n + 1
  /\ LET f == IF left = asking.rep + 1 THEN w ELSE first
         s == IF left = asking.rep + 1 THEN <<w>> ELSE Append(seen, w)
         ok == IF left = asking.rep + 1 THEN TRUE
               ELSE IF Design = "last" THEN w = f ELSE agree /\ w = f
         keep == (asking.use \/ Design = "store") /\ asking.id # ""
     IN /\ first' = f /\ seen' = s
        /\ IF left > 1
           THEN /\ left' = left - 1 /\ agree' = ok
                /\ mem' = IF Design = "hasty" /\ keep THEN Put(mem, Slot(asking.id), f) ELSE mem
                /\ UNCHANGED <<asking, known, result>>
           ELSE IF ok
           THEN /\ mem' = IF keep THEN Put(mem, Slot(asking.id), f) ELSE mem
                /\ known' = IF asking.use /\ asking.id # "" THEN Put(known, asking.id, f) ELSE known
                /\ result' = [how |-> "typed", got |-> f, id |-> asking.id, use |-> asking.use]
                /\ asking' = None /\ left' = 0 /\ agree' = TRUE
           ELSE /\ left' = asking.rep + 1 /\ agree' = TRUE
                /\ UNCHANGED <<mem, known, asking, result>>
Interrupt == /\ ~Idle /\ asking' = None /\ left' = 0 /\ agree' = TRUE /\ result' = Nothing /\ UNCHANGED <<mem, known, first, seen, n>>
Clear(id) == /\ Idle /\ n < Steps /\ n' = n + 1
             /\ mem' = IF Design = "noclear" THEN mem ELSE IF Design = "clearall" THEN Del(mem, "?") ELSE Del(mem, Slot(id))
             /\ known' = Del(known, id) /\ result' = Nothing /\ UNCHANGED <<asking, first, left, agree, seen>>
Next == \/ \E id \in Ids \cup {""}, u \in BOOLEAN, r \in 0..MaxRep : Begin(id, u, r)
        \/ \E w \in Words : Enter(w)
        \/ Interrupt
        \/ \E id \in Ids : Clear(id)
Spec == Init /\ [][Next]_vars
\* every repetition agreed
Agreed == result.how = "typed" => \A j \in 1..Len(seen) : seen[j] = result.got
\* what comes without a prompt was asked to be remembered, under this entry, and not cleared
Remembered == result.how = "cache" => result.use /\ result.id \in DOMAIN known /\ known[result.id] = result.got
\* and what should be remembered is
Kept == Idle => \A id \in DOMAIN known : Slot(id) \in DOMAIN mem
=============================================================================
