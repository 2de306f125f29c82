------------------------------- MODULE KeyIds -------------------------------
(***************************************************************************)
(* Key ids and fingerprints (RFC 4880, section 12.2) as functions of the   *)
(* public fields of a key alone.  Digests are uninterpreted: the spec says *)
(* which octets are digested and which digits of the digest are shown.     *)
(***************************************************************************)
EXTENDS Packets
\* what is digested: SHA-1 for version 4, MD5 before
Preimage(k) == IF k.version >= 4
               THEN LET b == PubBody(k) IN <<153>> \o U2(Len(b)) \o b
               ELSE CatAll(k.mpis)
Digest(k) == IF k.version >= 4 THEN "sha1" ELSE "md5"
DigestLen(k) == IF k.version >= 4 THEN 20 ELSE 16
Fingerprint(k, digest) == Hex(digest)
KeyIdOctets(k, digest) == IF k.version >= 4 THEN LastN(digest, 8) ELSE LastN(PadTo(k.mpis[1], 8), 8)
KeyId(k, digest) == Hex(KeyIdOctets(k, digest))
\* the size of a key: bits of its modulus
RECURSIVE Size(_)
Size(m) == IF m = <<>> THEN 0 ELSE IF m[1] = 0 THEN Size(Tail(m)) ELSE 8 * (Len(m) - 1) + (CHOOSE n \in 1..8 : 2 ^ (n - 1) <= m[1] /\ m[1] < 2 ^ n)

\* two plain ways to frame a packet
OldPkt(t, b) == <<128 + 4 * t + 1>> \o U2(Len(b)) \o b
NewPkt(t, b) == <<192 + t, 255>> \o U4(Len(b)) \o b
Pkt(t, b, new) == IF new THEN NewPkt(t, b) ELSE OldPkt(t, b)
Sum16(s) == FoldLeft(LAMBDA a, x : (a + x) % 65536, 0, s)
\* secret values in the clear, with their checksum
ClearSecret(mpis) == LET s == MpiAll(mpis) IN s \o U2(Sum16(s))
=============================================================================
