------------------------------ MODULE MCStatus ------------------------------
(***************************************************************************)
(* The owner of a key certifies, restates and revokes; others and subkeys  *)
(* sign too; a key server stores the signatures in any order.  The library *)
(* goes through them once.                                                 *)
(*   "last"     the one stored last wins                                   *)
(*   "anyone"   others' signatures count                                   *)
(*   "subkeys"  those of subkeys count                                     *)
(*   "kinds"    other kinds of signatures count                            *)
(*   "late"     a signature is still valid when its time has come          *)
(*   "ended"    expired signatures count                                   *)
(*   "revoked"  revoked certifications count                               *)
(*   "lone"     a revocation needs a single companion                      *)
(*   "backwards" a revocation reaches certifications made after it         *)
(***************************************************************************)
EXTENDS Status, SequencesExt
CONSTANTS Design, Item, N, T
VARIABLES sigs, now
vars == <<sigs, now>>
Sig == [kind : {"c", "r", "x"}, by : {"own", "sub", "other"}, at : {2 * t : t \in 1..T}, life : {0, 2}, val : {0}, bad : {FALSE}]
Init == sigs = <<>> /\ now = 2
\* a statement tells the time it was made
Fits(s) == /\ s.at <= now
           /\ (s.by = "own" /\ s.kind # "x") \/ s.life = 0
           /\ \A j \in Dom(sigs) : sigs[j].at # s.at
Store == /\ Len(sigs) < N
         /\ UNCHANGED now
         /\ \E s \in Sig : Fits(s) /\ \E p \in 1..(Len(sigs) + 1) : sigs' = InsertAt(sigs, p, [s EXCEPT !.val = s.at])
Wait == now < 2 * T + 3 /\ now' = now + 1 /\ UNCHANGED sigs
Next == Store \/ Wait
Spec == Init /\ [][Next]_vars
\* the library
Over(s) == s.life # 0 /\ (IF Design = "late" THEN now > s.at + s.life ELSE now >= s.at + s.life) /\ Design # "ended"
Mine(s) == s.by = "own" \/ Design = "anyone" \/ (Design = "subkeys" /\ s.by = "sub")
Takes(s) == s.kind = "c" \/ (Design = "kinds" /\ s.kind = "x")
Gone(i) == LET s == sigs[i]  Mates == {j \in Dom(sigs) : sigs[j].kind = "c" /\ sigs[j].by = s.by} IN
  Design # "revoked" /\ \E j \in Dom(sigs) : /\ sigs[j].kind = "r" /\ sigs[j].by = s.by /\ ~Over(sigs[j])
                                           /\ (Item \in {"key", "subkey"} \/ Design = "backwards" \/ sigs[j].at >= s.at)
                                           /\ (Design # "lone" \/ Cardinality(Mates) = 1)
RECURSIVE Walk(_, _)
Walk(i, best) == IF i > Len(sigs) THEN best
                 ELSE LET s == sigs[i]  ok == Takes(s) /\ Mine(s) /\ ~Over(s) /\ ~Gone(i) IN
                      Walk(i + 1, IF ok /\ (best = 0 \/ Design = "last" \/ sigs[best].at < s.at) THEN i ELSE best)
Answer == LET i == Walk(1, 0) IN IF i = 0 THEN 0 ELSE sigs[i].val
Revoked == \E i \in Dom(sigs) : sigs[i].kind = "r" /\ Mine(sigs[i]) /\ ~Over(sigs[i])
\* the owner's last word, told without going through the list
Truthful == Answer \in Said(Item, sigs, now)
Reported == Revoked <=> Revocations(sigs, now) # {}
\* only the owner's signatures matter, in any order
Owner == LET q == SelectSeq(sigs, LAMBDA s : s.by = "own") IN Said(Item, q, now) = Said(Item, sigs, now) /\ Said(Item, Reverse(q), now) = Said(Item, q, now)
\* what is valid was valid before, unless newly made
Fades == \A s \in Dom(sigs) : (s \in Current(Item, sigs, now + 1) /\ s \notin Current(Item, sigs, now)) => \E r \in Dom(sigs) : sigs[r].kind = "r" /\ Ended(sigs[r], now + 1)
=============================================================================
