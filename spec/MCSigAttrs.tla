---------------------------- MODULE MCSigAttrs ----------------------------
(***************************************************************************)
(* Attributes kept as subpackets: a scalar e and a scalar r of their own,  *)
(* f and g in one subpacket, a list l with one subpacket each, a creation  *)
(* time and an expiry relative to it.  `says` is a ghost: the attributes   *)
(* as last assigned.  Anybody can add unhashed subpackets.                 *)
(*   "shared"   r is written where e is                                    *)
(*   "allset"   companions appear set                                      *)
(*   "keep"     elements of a list that are not assigned any more stay     *)
(*   "sorted"   the order of a list is lost                                *)
(*   "drift"    the expiry moves with the creation time                    *)
(*   "unhashed" statements outside the covered area count                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, FiniteSetsExt
CONSTANTS Design, MaxOps, L
VARIABLES hashed, unhashed, says, ops
vars == <<hashed, unhashed, says, ops>>
Sp(t, v) == [t |-> t, v |-> v]
Get(h, t) == LET q == SelectSeq(h, LAMBDA s : s.t = t) IN [i \in 1..Len(q) |-> q[i].v]
Seen(t) == Get(hashed, t) \o (IF Design = "unhashed" THEN Get(unhashed, t) ELSE <<>>)
One(t, none) == IF Seen(t) = <<>> THEN none ELSE Head(Seen(t))
Put(h, t, v) == IF Get(h, t) = <<>> THEN Append(h, Sp(t, v)) ELSE [i \in 1..Len(h) |-> IF h[i].t = t THEN Sp(t, v) ELSE h[i]]
Without(h, t) == SelectSeq(h, LAMBDA s : s.t # t)
Read == [e |-> One("e", 0), r |-> One(IF Design = "shared" THEN "e" ELSE "r", 0), f |-> One("fg", <<0, 0>>)[1], g |-> One("fg", <<0, 0>>)[2], l |-> Seen("l"), c |-> One("c", 0),
         x |-> IF One("x", 0) = 0 THEN 0 ELSE One("c", 0) + One("x", 0)]
Init == hashed = <<Sp("c", 1)>> /\ unhashed = <<>> /\ says = [e |-> 0, r |-> 0, f |-> 0, g |-> 0, l |-> <<>>, c |-> 1, x |-> 0] /\ ops = 0
Say(a, v) == says' = [says EXCEPT ![a] = v]
SetE == \E v \in 1..2 : hashed' = Put(hashed, "e", v) /\ Say("e", v)
SetR == \E v \in 1..2 : hashed' = Put(hashed, IF Design = "shared" THEN "e" ELSE "r", v) /\ Say("r", v)
Companion == IF Design = "allset" THEN 2 ELSE 1
SetF == \E v \in 1..2 : LET h == Get(hashed, "fg") IN /\ hashed' = Put(hashed, "fg", <<v, IF h = <<>> THEN Companion ELSE h[1][2]>>)
                                                    /\ says' = [says EXCEPT !.f = v, !.g = IF h = <<>> THEN 1 ELSE @]
SetG == \E v \in 1..2 : LET h == Get(hashed, "fg") IN /\ hashed' = Put(hashed, "fg", <<IF h = <<>> THEN Companion ELSE h[1][1], v>>)
                                                    /\ says' = [says EXCEPT !.g = v, !.f = IF h = <<>> THEN 1 ELSE @]
SetL == \E v \in {<<>>, <<1>>, <<2, 1>>, <<1, 2>>, <<1, 1>>} :
          /\ hashed' = LET old == Get(hashed, "l")
                           new == CASE Design = "keep" /\ v # <<>> -> old \o SelectSeq(v, LAMBDA y : \A i \in 1..Len(old) : old[i] # y)
                                    [] Design = "sorted" -> SetToSeq(Range(v))
                                    [] OTHER -> v
                       IN Without(hashed, "l") \o [i \in 1..Len(new) |-> Sp("l", new[i])]
          /\ Say("l", v)
SetC == \E v \in 1..3 : /\ Read.x = 0 \/ v < Read.x \/ Design = "drift"
                        /\ hashed' = (IF Design = "drift" \/ Read.x = 0 THEN Put(hashed, "c", v) ELSE Put(Put(hashed, "c", v), "x", Read.x - v))
                        /\ Say("c", v)
SetX == \E v \in {0, 2, 4} : /\ v = 0 \/ v > Read.c
                             /\ hashed' = (IF v = 0 THEN Without(hashed, "x") ELSE Put(hashed, "x", v - Read.c))
                             /\ Say("x", v)
Tamper == /\ Len(unhashed) < L
          /\ \E s \in {Sp("e", 2), Sp("fg", <<2, 2>>), Sp("l", 2), Sp("x", 1)} : unhashed' = Append(unhashed, s)
          /\ UNCHANGED <<hashed, says>>
Next == ops < MaxOps /\ ops' = ops + 1 /\ ((UNCHANGED unhashed /\ (SetE \/ SetR \/ SetF \/ SetG \/ SetL \/ SetC \/ SetX)) \/ Tamper)
Spec == Init /\ [][Next]_vars
AsAssigned == Read = says
=============================================================================
