------------------------------- MODULE Status -------------------------------
(***************************************************************************)
(* What the signatures on an item (a key, an identity or a subkey) say     *)
(* about it at a time.  A signature is a record:                           *)
(*   kind  "c" states things about such an item, "r" revokes it, "x" is of *)
(*         another kind                                                    *)
(*   by    "own" the primary key, "sub" one of its subkeys, "other"        *)
(*   at    when it was made; 0: it does not say                            *)
(*   life  how long it is valid; 0: for ever                               *)
(*   val   what it states (a number that stands for all its attributes)    *)
(*   bad   somebody found it not to verify                                 *)
(* Times are in half seconds; signatures are made at full ones.            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
Dom(q) == 1..Len(q)
Ended(s, now) == s.life # 0 /\ now >= s.at + s.life
Counts(s, now) == s.at # 0 /\ ~s.bad /\ ~Ended(s, now)
\* an identity's revocation only concerns what was certified before it
Revokes(item, r, s, now) == /\ r.kind = "r" /\ s.kind = "c" /\ r.by = s.by /\ Counts(r, now)
                            /\ (item \in {"key", "subkey"} \/ s.at = 0 \/ r.at >= s.at)
IsRevoked(item, q, i, now) == \E j \in Dom(q) : Revokes(item, q[j], q[i], now)
OwnSigs(q) == {i \in Dom(q) : q[i].by = "own"}
Revocations(q, now) == {i \in OwnSigs(q) : q[i].kind = "r" /\ Counts(q[i], now)}
Current(item, q, now) == {i \in OwnSigs(q) : q[i].kind = "c" /\ Counts(q[i], now) /\ ~IsRevoked(item, q, i, now)}
Newest(q, S) == {i \in S : \A j \in S : q[j].at <= q[i].at}
\* what may be stated about the item; 0: nothing
Stated(q, S) == IF S = {} THEN {0} ELSE {q[i].val : i \in Newest(q, S)}
Said(item, q, now) == Stated(q, Current(item, q, now))
Reason(q, now) == Stated(q, Revocations(q, now))
\* an identity certified again after it was revoked: either view
Again(item, q, now) == item \in {"uid", "uat"} /\ Revocations(q, now) # {} /\ Current(item, q, now) # {}
=============================================================================
