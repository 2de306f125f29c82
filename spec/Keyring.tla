------------------------------ MODULE Keyring ------------------------------
(***************************************************************************)
(* A keyring file holds keys one after the other; a key is its primary key *)
(* packet and what follows up to the next primary key packet.  Seen from   *)
(* outside it is a map from fingerprints to contents.  Key IDs are short   *)
(* and need not be unique.                                                 *)
(*   a, b   ordinary keys; b has a subkey and trust packets                *)
(*   c, d   different keys with the same short key ID                      *)
(*   e, f   version 3 keys with the same long key ID, and with c's short   *)
(*   g      has a's primary key as a subkey                                *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets
Keys == {"a", "b", "c", "d", "e", "f", "g"}
LongId(k) == IF k \in {"e", "f"} THEN "ef" ELSE k
ShortId(k) == IF k \in {"c", "d", "e", "f"} THEN "cdef" ELSE k
Same(h, k, l) == CASE h = "fp" -> k = l [] h = "long" -> LongId(k) = LongId(l) [] h = "short" -> ShortId(k) = ShortId(l)
\* a keyring as a map
Has(ring, k) == \E x \in ring : x.k = k
Without(ring, k) == {x \in ring : x.k # k}
Allowed(ring, op, readonly) ==
  CASE op.do \in {"peer add", "peer delete", "reopen"} -> TRUE
    [] op.do = "junk" -> FALSE
    [] op.do = "add" -> ~readonly /\ ~Has(ring, op.k)
    [] op.do \in {"update", "delete"} -> ~readonly /\ Has(ring, op.k)
Apply(ring, op, readonly) ==
  IF ~Allowed(ring, op, readonly) \/ op.do = "reopen" THEN ring
  ELSE IF op.do \in {"delete", "peer delete"} THEN Without(ring, op.k)
  ELSE Without(ring, op.k) \cup {[k |-> op.k, v |-> op.v]}
\* what a lookup of k's fingerprint or key ID may find
Finds(ring, h, k) == {x \in ring : Same(h, x.k, k)}
Touched(op) == IF op.do \in {"reopen", "junk"} THEN {} ELSE {op.k}
=============================================================================
