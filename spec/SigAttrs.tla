----------------------------- MODULE SigAttrs -----------------------------
(***************************************************************************)
(* What a signature says, as a map of attributes.  Values are numbered:    *)
(* 0 is "not stated"; lists are sequences of numbered elements; times are  *)
(* numbered in order, with the key made at time 2; 7 is more than 2^31      *)
(* seconds later, 8 too late for 32 bits.  Notations 7 to 9 are critical:    *)
(* while it stands the notations cannot be read.  Attributes that share    *)
(* a subpacket appear together, the others with a neutral value.           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt
Flags == {"may_certify_others", "may_sign_data", "may_encrypt_comms", "may_encrypt_storage", "may_be_used_for_auth", "may_have_been_split", "may_have_multiple_owners"}
Bools == {"exportable", "revocable", "key_server_should_not_modify", "primary_user_id", "supports_modification_detection"} \cup Flags
Numbers == {"trust_amount", "trust_depth", "revocation_code"}
Texts == {"issuer_user_id", "revocation_reason", "preferred_key_server", "policy_uri"}
Prefs == {"preferred_compression_algorithms", "preferred_hash_algorithms", "preferred_symmetric_algorithms"}
Scalars == Bools \cup Numbers \cup Texts \cup Prefs
Lists == {"issuer_key_ids", "regular_expressions", "notations", "embedded_signatures", "revocation_keys"}
Times == {"creation_time", "signature_expiration_time", "key_expiration_time"}
Attrs == Scalars \cup Lists \cup Times
KeyMade == 2
TooLate == 8
Values(a) == IF a \in Bools THEN 1..2 ELSE IF a \in Numbers \cup Prefs THEN 1..3 ELSE 1..4
\* false, zero, no text
Neutral(a) == IF a \in Bools THEN 2 ELSE 1
Group(a) == IF a \in Flags THEN Flags ELSE IF a \in {"trust_amount", "trust_depth"} THEN {"trust_amount", "trust_depth"}
            ELSE IF a \in {"revocation_code", "revocation_reason"} THEN {"revocation_code", "revocation_reason"} ELSE {a}
Nothing == [a \in Attrs |-> IF a \in Lists THEN <<>> ELSE 0]
\* whether the assignment is possible at all
May(st, version, about, a, v) ==
  IF version < 4 THEN ((a = "creation_time" /\ v < TooLate) \/ (a = "issuer_key_ids" /\ Len(v) = 1) \/ (a \in (Lists \cup Times) \ {"issuer_key_ids"} /\ v = Nothing[a]))
  ELSE CASE a = "creation_time" -> v < TooLate /\ (st["signature_expiration_time"] = 0 \/ v < st["signature_expiration_time"])
         [] a = "signature_expiration_time" -> v = 0 \/ (st["creation_time"] # 0 /\ v > st["creation_time"])
         [] a = "key_expiration_time" -> v = 0 \/ (about # "message" /\ v > KeyMade /\ v < TooLate)
         [] OTHER -> TRUE
Assign(st, a, v) == [b \in Attrs |-> IF b = a THEN v ELSE IF b \in Group(a) /\ st[a] = 0 THEN Neutral(b) ELSE st[b]]
Set(st, version, about, a, v) == IF May(st, version, about, a, v) THEN Assign(st, a, v) ELSE st
RECURSIVE After(_, _, _, _)
After(st, version, about, ops) == IF ops = <<>> THEN st ELSE After(Set(st, version, about, Head(ops).a, Head(ops).v), version, about, Tail(ops))
=============================================================================
