------------------------------ MODULE MCFresh ------------------------------
(***************************************************************************)
(* Designs of a source of random values, used by several objects in        *)
(* processes that fork, in a program that also uses the general-purpose    *)
(* generator and may seed it.  A value is [n, full, open]: values with     *)
(* the same n are equal; open ones can be told by an outsider.             *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS Design, MaxUses
Procs == {1, 2}
Objs == {1, 2}
Texts == {1, 2}
VARIABLES alive, world, general, first, cache, ahead, uses
vars == <<alive, world, general, first, cache, ahead, uses>>
None == 0
Init == /\ alive = {1} /\ world = 10 /\ general = [p \in Procs |-> 1]
        /\ first = [p \in Procs |-> None] /\ cache = [p \in Procs |-> [o \in Objs |-> None]]
        /\ ahead = [p \in Procs |-> <<>>] /\ uses = <<>>
Val(n) == [n |-> n, full |-> TRUE, open |-> FALSE]
Use(p, o, t, v) == uses' = Append(uses, [v |-> v, t |-> t])
Draw(p, o, t) ==
  /\ p \in alive /\ Len(uses) < MaxUses
  /\ CASE Design = "good" -> /\ world' = world + 1 /\ Use(p, o, t, Val(world)) /\ UNCHANGED <<general, first, cache, ahead>>
     [] Design = "short" -> /\ world' = world + 1 /\ Use(p, o, t, [Val(world) EXCEPT !.full = FALSE]) /\ UNCHANGED <<general, first, cache, ahead>>
     [] Design = "constant" -> /\ Use(p, o, t, [Val(1) EXCEPT !.open = TRUE]) /\ UNCHANGED <<world, general, first, cache, ahead>>
     [] Design = "default argument" -> /\ first' = [first EXCEPT ![p] = IF @ = None THEN world ELSE @] /\ world' = world + 1
                                       /\ Use(p, o, t, Val(first'[p])) /\ UNCHANGED <<general, cache, ahead>>
     [] Design = "per object" -> /\ cache' = [cache EXCEPT ![p][o] = IF @ = None THEN world ELSE @] /\ world' = world + 1
                                 /\ Use(p, o, t, Val(cache'[p][o])) /\ UNCHANGED <<general, first, ahead>>
     [] Design = "read ahead" -> LET a == IF ahead[p] = <<>> THEN <<world, world + 1, world + 2>> ELSE ahead[p] IN
                                 /\ ahead' = [ahead EXCEPT ![p] = Tail(a)] /\ world' = world + 3
                                 /\ Use(p, o, t, Val(a[1])) /\ UNCHANGED <<general, first, cache>>
     [] Design = "general purpose" -> /\ general' = [general EXCEPT ![p] = @ + 1] /\ Use(p, o, t, Val(general[p])) /\ UNCHANGED <<world, first, cache, ahead>>
     [] Design = "from the text" -> /\ Use(p, o, t, Val(t)) /\ UNCHANGED <<world, general, first, cache, ahead>>
  /\ UNCHANGED alive
Fork == /\ alive = {1} /\ alive' = Procs
        /\ general' = [general EXCEPT ![2] = general[1]] /\ first' = [first EXCEPT ![2] = first[1]]
        /\ cache' = [cache EXCEPT ![2] = cache[1]] /\ ahead' = [ahead EXCEPT ![2] = ahead[1]]
        /\ UNCHANGED <<world, uses>>
Seed(p) == /\ p \in alive /\ general[p] # 1 /\ general' = [general EXCEPT ![p] = 1]
           /\ UNCHANGED <<alive, world, first, cache, ahead, uses>>
Next == \/ \E p \in Procs, o \in Objs, t \in Texts : Draw(p, o, t)
        \/ Fork
        \/ \E p \in Procs : Seed(p)
Spec == Init /\ [][Next]_vars
Anew == \A a, b \in 1..Len(uses) : a # b => uses[a].v.n # uses[b].v.n
Full == \A a \in 1..Len(uses) : uses[a].v.full
Secret == \A a \in 1..Len(uses) : ~uses[a].v.open
\* what a nonce needs: never the same one for two different texts
NonceAnew == \A a, b \in 1..Len(uses) : uses[a].v.n = uses[b].v.n => uses[a].t = uses[b].t
=============================================================================
