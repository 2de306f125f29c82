---------------------------- MODULE MCIntegrity ----------------------------
(***************************************************************************)
(* Integrity-protected data under attack.  Ciphertext blocks are known by  *)
(* their origin and what was changed in them; in CFB mode a block's plain  *)
(* text depends on the block and the one before: it is the original one,   *)
(* the original one with the same change, or junk.  Blocks 0 and 1 are the *)
(* random prefix (the second repeats its end), 2..N the data, N + 1 the    *)
(* detection code: a digest of everything before it.  Digests of different *)
(* texts are assumed different.                                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt
CONSTANTS Design, N, MaxEdits
VARIABLES c, edits
vars == <<c, edits>>
Orig == [j \in 1..(N + 2) |-> [i |-> j - 1, d |-> 0]]
New == [i |-> -9, d |-> 0]
Init == c = Orig /\ edits = 0
Flip == \E j \in 1..Len(c) : c' = [c EXCEPT ![j].d = 1 - @]
Drop == \E j \in 1..Len(c) : c' = RemoveAt(c, j)
Dup == \E j \in 1..Len(c) : c' = InsertAt(c, j, c[j])
SwapTwo == \E j, k \in 1..Len(c) : j < k /\ c' = [c EXCEPT ![j] = c[k], ![k] = c[j]]
Add == \E j \in 1..(Len(c) + 1) : c' = InsertAt(c, j, New)
Next == edits < MaxEdits /\ edits' = edits + 1 /\ (Flip \/ Drop \/ Dup \/ SwapTwo \/ Add)
Spec == Init /\ [][Next]_vars
Plain(j) == LET p == IF j = 1 THEN [i |-> -1, d |-> 0] ELSE c[j - 1] IN
            IF p.d = 0 /\ c[j].i >= 0 /\ p.i = c[j].i - 1 THEN [i |-> c[j].i, d |-> c[j].d] ELSE [i |-> -9, d |-> 0]
P == [j \in 1..Len(c) |-> Plain(j)]
Good(j, i) == P[j] = [i |-> i, d |-> 0]
Quick == Len(c) >= 2 /\ Good(1, 0) /\ Good(2, 1)
\* the blocks before position j hash to the original digest
Hash(j) == j - 1 = N + 1 /\ \A k \in (IF Design = "noprefix" THEN 3 ELSE 1)..(j - 1) : Good(k, k - 1)
Mdc(j) == Good(j, N + 1)
Accept ==
  CASE Design = "optional" -> Quick /\ (IF Len(c) > 2 /\ Mdc(Len(c)) THEN Hash(Len(c)) ELSE TRUE)
    [] Design = "firstmdc" -> Quick /\ \E j \in 3..Len(c) : Mdc(j) /\ Hash(j)
    [] Design = "noprefix" -> Len(c) > 2 /\ Mdc(Len(c)) /\ Hash(Len(c))
    [] Design = "late" -> Quick
    [] OTHER -> Quick /\ Len(c) > 2 /\ Mdc(Len(c)) /\ Hash(Len(c))
OnlyOriginal == Accept => c = Orig
OriginalOk == c = Orig => Accept
=============================================================================
