------------------------------- MODULE Fresh -------------------------------
(***************************************************************************)
(* Values that must be unpredictable.  A use of such a value is a draw     *)
(*   [kind, val, cipher, mod, of]                                          *)
(* val is its octets.  Kinds:                                              *)
(*   "session"  the key a message is encrypted with                        *)
(*   "prefix"   the random block in front of the encrypted packets         *)
(*   "salt"     of a string-to-key specifier                               *)
(*   "padding"  around a session key for an RSA or ElGamal key of mod      *)
(*              octets; cipher is that of the session key                  *)
(*   "power"    g^k of an ElGamal encryption, which hides the session key  *)
(*   "nonce"    k of a DSA signature with a q of mod octets; of is what    *)
(*              was signed                                                 *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets
KeyLen(c) == CASE c \in {1, 3, 4, 7, 11} -> 16 [] c \in {2, 8, 12} -> 24 [] c \in {9, 10, 13} -> 32
Block(c) == IF c \in {1, 2, 3, 4} THEN 8 ELSE 16
Width(d) == CASE d.kind = "session" -> KeyLen(d.cipher) [] d.kind = "prefix" -> Block(d.cipher) [] d.kind = "salt" -> 8
              [] d.kind = "padding" -> d.mod - 6 - KeyLen(d.cipher) [] OTHER -> d.mod
Head8(v) == SubSeq(v, 1, 8)
\* ---- two uses share a value: one is the beginning of the other.  The same
\* nonce may serve for the same data: it then gives the same signature.
Same(a, b) == LET n == IF Len(a) < Len(b) THEN Len(a) ELSE Len(b) IN SubSeq(a, 1, n) = SubSeq(b, 1, n)
Shares(a, b) == /\ IF a.kind = "power" \/ b.kind = "power" THEN a.kind = b.kind /\ a.val = b.val
                   ELSE Same(a.val, b.val)
                /\ ~(a.kind = "nonce" /\ b.kind = "nonce" /\ a.of = b.of)
\* ---- less random than it looks
Flat(v) == \E s \in {SubSeq(v, 1, 8), SubSeq(v, Len(v) - 7, Len(v))} : Cardinality({s[j] : j \in 1..8}) = 1
=============================================================================
