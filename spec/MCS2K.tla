------------------------------- MODULE MCS2K -------------------------------
(* Deriving a key as a machine: contexts are opened one after another,     *)
(* preloaded, fed unit by unit and finished; digests are symbolic, so the  *)
(* model shows which octets reach which context for every salt, passphrase *)
(* and count, also when the count is shorter than one unit.                *)
EXTENDS S2K
CONSTANTS PassLens, SaltLen, Counts, HashLens, KeyLens, Exception
VARIABLES pass, count, hl, kl, ctx, fed, done, pc
vars == <<pass, count, hl, kl, ctx, fed, done, pc>>
P(n) == [i \in 1..n |-> 100 + i]
Salt == [i \in 1..SaltLen |-> i]
U0 == Salt \o pass
N == Len(U0)
Want == IF count = 0 THEN N ELSE Max2(count, N)
Limit == IF count = 0 THEN N ELSE IF Exception THEN Max2(count, N) ELSE count
Init == /\ pass \in {P(n) : n \in PassLens} /\ count \in Counts /\ hl \in HashLens /\ kl \in KeyLens
        /\ ctx = 0 /\ fed = <<>> /\ done = <<>> /\ pc = "open"
Open == /\ pc = "open" /\ ctx * hl < kl /\ fed' = Zeros(ctx) /\ pc' = "feed" /\ UNCHANGED <<pass, count, hl, kl, ctx, done>>
Feed == /\ pc = "feed" /\ Len(fed) - ctx < Limit
        /\ LET left == Limit - (Len(fed) - ctx) IN
           fed' = fed \o SubSeq(U0, 1, IF left < N THEN left ELSE N)
        /\ UNCHANGED <<pass, count, hl, kl, ctx, done, pc>>
Close == /\ pc = "feed" /\ Len(fed) - ctx >= Limit
         /\ done' = Append(done, fed) /\ ctx' = ctx + 1 /\ pc' = "open" /\ UNCHANGED <<pass, count, hl, kl, fed>>
Finish == pc = "open" /\ ctx * hl >= kl /\ pc' = "done" /\ UNCHANGED <<pass, count, hl, kl, ctx, fed, done>>
Next == Open \/ Feed \/ Close \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Cycle(n) == [i \in 1..n |-> U0[((i - 1) % N) + 1]]
Prescribed == pc = "done" =>
  /\ Len(done) * hl >= kl /\ (Len(done) - 1) * hl < kl
  /\ \A i \in 1..Len(done) : done[i] = Zeros(i - 1) \o Cycle(Want)
Ends == <>(pc = "done")
=============================================================================
