----------------------------- MODULE MCDeflate -----------------------------
(***************************************************************************)
(* Data is fed to a compressor in pieces, the stream is cut into pieces    *)
(* again and fed to a reader.  Either the whole data comes out or, of an   *)
(* incomplete stream, nothing.                                             *)
(***************************************************************************)
EXTENDS Deflate
CONSTANTS Letters, Bound, Design
VARIABLES data, feeds, bits, stream, fed, phase, result
vars == <<data, feeds, bits, stream, fed, phase, result>>
Chunks == UNION {[1..k -> Letters] : k \in 0..2}
Init == data = <<>> /\ feeds = 0 /\ bits = <<>> /\ stream = <<>> /\ fed = 0 /\ phase = "write" /\ result = [st |-> "none", out |-> <<>>]
\* runs of an octet become a match with overlap
Tokens(c) == IF Len(c) >= 4 /\ \A i \in 1..Len(c) : c[i] = c[1] THEN <<[len |-> 0, c |-> c[1]], [len |-> Len(c) - 1, c |-> 1]>> ELSE Lits(c)
Feed == /\ phase = "write" /\ feeds < Bound /\ feeds' = feeds + 1
        /\ \E c \in Chunks \cup {[i \in 1..5 |-> l] : l \in Letters}, kind \in {"stored", "fixed"} :
             /\ data' = data \o c
             /\ bits' = IF Design = "first" /\ feeds > 0 THEN bits
                        ELSE bits \o (IF kind = "stored" THEN StoredBits(Len(bits), c, FALSE) ELSE FixedBits(Tokens(c), FALSE))
        /\ UNCHANGED <<stream, fed, phase, result>>
Flush == /\ phase = "write" /\ phase' = "read"
         /\ stream' = (LET s == Pack(bits \o FixedBits(<<>>, TRUE)) IN IF Design = "sum" THEN s ELSE <<120, 156>> \o s \o Sum(data))
         /\ UNCHANGED <<data, feeds, bits, fed, result>>
Give == phase = "read" /\ fed < Len(stream) /\ fed' = fed + 1
        /\ UNCHANGED <<data, feeds, bits, stream, phase, result>>
Stop == /\ phase = "read" /\ phase' = "done"
        /\ result' = (LET s == SubSeq(stream, 1, fed)
                          r == IF Design = "sum" THEN Inflate(s) ELSE Unzlib(s) IN
                      IF r.st = "ok" \/ (Design = "early" /\ r.st = "short") THEN [st |-> "ok", out |-> r.out] ELSE [st |-> "refused", out |-> <<>>])
        /\ UNCHANGED <<data, feeds, bits, stream, fed>>
Next == Feed \/ Flush \/ Give \/ Stop
Spec == Init /\ [][Next]_vars
Lossless == phase = "done" => IF fed = Len(stream) THEN result = [st |-> "ok", out |-> data] ELSE result.st = "refused"
=============================================================================
