----------------------------- MODULE SessionKey -----------------------------
(***************************************************************************)
(* The session key that a recipient finds.  For a key it is a block of the *)
(* key's length: 0, 2, padding without zeros, 0, cipher, key, checksum;    *)
(* for a passphrase it is the cipher and the key.  Nothing else is one.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt
None == [cipher |-> 0, key |-> <<>>]
RECURSIVE SumOf(_)
SumOf(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumOf(Tail(s))
\* base and key lengths are parameters, so that all small blocks can be tried
Pack(b, c, k) == <<c>> \o k \o <<(SumOf(k) \div b) % b, SumOf(k) % b>>
Unpack(b, len, m) ==
  IF Len(m) < 4 THEN None
  ELSE LET k == SubSeq(m, 2, Len(m) - 2) IN
       IF m[1] \in DOMAIN len /\ Len(k) = len[m[1]] /\ m = Pack(b, m[1], k) THEN [cipher |-> m[1], key |-> k] ELSE None
Encode(b, ps, c, k) == <<0, 2>> \o ps \o <<0>> \o Pack(b, c, k)
Least(S) == CHOOSE x \in S : \A y \in S : x <= y
Decode(b, len, least, e) ==
  LET zeros == {j \in 3..Len(e) : e[j] = 0} IN
  IF Len(e) < 3 \/ e[1] # 0 \/ e[2] # 2 \/ zeros = {} THEN None
  ELSE LET s == Least(zeros) IN IF s - 3 < least THEN None ELSE Unpack(b, len, SubSeq(e, s + 1, Len(e)))
\* for a passphrase
DecodeSym(len, e) == IF e # <<>> /\ e[1] \in DOMAIN len /\ Len(e) - 1 = len[e[1]] THEN [cipher |-> e[1], key |-> Tail(e)] ELSE None
=============================================================================
