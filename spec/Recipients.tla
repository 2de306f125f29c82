----------------------------- MODULE Recipients -----------------------------
(***************************************************************************)
(* Who can open an encrypted message.  A slot is a session key packet:     *)
(*   [k |-> "pub" | "hid", who]  for a key, its id shown or not            *)
(*   [k |-> "sym" | "raw", who]  for a passphrase; "raw" is the passphrase *)
(*                               itself as session key                     *)
(*   [k |-> "default", who]      no packet at all                          *)
(*   [k |-> "bad", who]          for a key, but damaged                    *)
(*   [k |-> "odd", who]          of an algorithm nobody has                *)
(* An opener is [k |-> "key" | "locked" | "pass", who].                    *)
(***************************************************************************)
EXTENDS Naturals, Sequences
Slot(k, who) == [k |-> k, who |-> who]
Fits(s, o) == \/ s.k \in {"pub", "hid"} /\ o.k = "key" /\ o.who = s.who
              \/ s.k \in {"sym", "raw", "default"} /\ o.k = "pass" /\ o.who = s.who
Opens(slots, o) == \E j \in 1..Len(slots) : Fits(slots[j], o)
=============================================================================
