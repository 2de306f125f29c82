------------------------------ MODULE MCOctets ------------------------------
(* The scalar encodings are inverse to each other and injective: explored  *)
(* value by value, with arbitrary octets before and after.                 *)
EXTENDS Octets, FiniteSets
CONSTANTS MaxV, Minimal
VARIABLES v, pre, post
Init == v = 0 /\ pre = <<>> /\ post = <<>>
Next == \/ v < MaxV /\ v' = v + 1 /\ pre' \in {<<>>, <<0>>} /\ post' \in {<<>>, <<0, 1>>}
N == ToOctets(v)
Enc == IF Minimal THEN Mpi(N) ELSE U2(8 * Len(N)) \o N
D == pre \o Enc \o post
At == SubSeq(D, Len(pre) + 1, Len(D))
MpiInverse == MpiReadable(At) /\ MpiVal(At) = N /\ MpiRest(At) = post
MpiCanonical == Val(SubSeq(Enc, 1, 2)) = BitLen(N)
FixedInverse == /\ v < 65536 => Val(U2(v)) = v
                /\ Val(U4(v)) = v
HexInverse == Len(Hex(N)) = 2 * Len(N)
CountInverse == v < 256 => Codable(CountOf(v)) = {v}
CrcLinear == v < 256 => Crc24(<<v>>) # Crc24(<<(v + 1) % 256>>)
=============================================================================
