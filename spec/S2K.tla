-------------------------------- MODULE S2K --------------------------------
(***************************************************************************)
(* String-to-key (RFC 4880, 3.7.1): which octet strings are hashed and how *)
(* the digests make up the key.  The digest functions are uninterpreted:   *)
(* an input is <<zeros, unit, total>> - that many zero octets and then the *)
(* first `total` octets of unit unit unit ...                              *)
(***************************************************************************)
EXTENDS Octets, TLC
HashLen == (1 :> 16) @@ (2 :> 20) @@ (3 :> 20) @@ (8 :> 32) @@ (9 :> 48) @@ (10 :> 64) @@ (11 :> 28)
KeyLen == (1 :> 16) @@ (2 :> 24) @@ (3 :> 16) @@ (4 :> 16) @@ (7 :> 16) @@ (8 :> 24) @@ (9 :> 32) @@ (10 :> 32)
          @@ (11 :> 16) @@ (12 :> 24) @@ (13 :> 32)
Contexts(h, c) == (KeyLen[c] + HashLen[h] - 1) \div HashLen[h]
Max2(a, b) == IF a > b THEN a ELSE b
\* kind 0 simple, 1 salted, 3 iterated; the count is coded
Unit(s, pass) == IF s.k = 0 THEN pass ELSE s.salt \o pass
\* "if the octet count is less than the size of the salt plus passphrase,
\*  the full salt plus passphrase will be hashed"
Total(s, pass) == IF s.k = 3 THEN Max2(CountOf(s.count), Len(Unit(s, pass))) ELSE Len(Unit(s, pass))
Inputs(s, pass, c) == [i \in 1..Contexts(s.hash, c) |-> [zeros |-> i - 1, unit |-> Unit(s, pass), total |-> Total(s, pass)]]
Key(digests, c) == SubSeq(CatAll(digests), 1, KeyLen[c])
=============================================================================
