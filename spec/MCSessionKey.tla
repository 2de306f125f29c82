--------------------------- MODULE MCSessionKey ---------------------------
(* Every block of a small key: exactly the encodings of session keys are   *)
(* taken, each for what was encoded.                                       *)
EXTENDS SessionKey, FiniteSets, TLC
CONSTANTS Design, B, Size, MinPad
D == 0..(B - 1)
Lens == (1 :> 1) @@ (2 :> 2)
VARIABLE e
\* one octet after another
Init == e = <<>>
Next == Len(e) < Size /\ \E d \in D : e' = Append(e, d)
Spec == Init /\ [][Next]_e
Seqs(S, n) == [1..n -> S]
\* what a reader makes of it
Got == LET zeros == {j \in 3..Len(e) : e[j] = 0}
           s == IF Design = "anywhere" /\ zeros # {} THEN CHOOSE x \in zeros : \A y \in zeros : y <= x ELSE IF zeros = {} THEN 0 ELSE Least(zeros)
           m == IF s = 0 THEN <<>> ELSE SubSeq(e, s + 1, Len(e))
           k == IF Len(m) < 3 THEN <<>> ELSE SubSeq(m, 2, Len(m) - 2)
           head == Len(e) > 1 /\ e[1] = 0 /\ (e[2] = 2 \/ Design = "anytype")
           c == IF m = <<>> THEN 0 ELSE m[1] IN
       IF ~head \/ s = 0 \/ (s - 3 < MinPad /\ Design # "short") THEN None
       ELSE IF c \in DOMAIN Lens /\ (Len(k) = Lens[c] \/ (Design = "anylength" /\ Len(k) > 0)) /\ Len(m) > 3
               /\ (m[Len(m)] = SumOf(k) % B /\ (Design = "halfsum" \/ m[Len(m) - 1] = (SumOf(k) \div B) % B))
            THEN [cipher |-> c, key |-> k] ELSE None
Taken == Got # None
\* taken exactly when it encodes that with some padding
OnlyEncodings == Len(e) = Size /\ Taken => (Got.cipher \in DOMAIN Lens /\ Len(Got.key) = Lens[Got.cipher] /\ LET n == Size - 6 - Lens[Got.cipher] IN
                   n >= MinPad /\ (\A j \in 3..(2 + n) : e[j] # 0) /\ e = Encode(B, SubSeq(e, 3, 2 + n), Got.cipher, Got.key))
AllEncodings == Len(e) = Size =>
  \A c \in DOMAIN Lens : LET n == Size - 6 - Lens[c]
                             k == SubSeq(e, Size - 1 - Lens[c], Size - 2) IN
    (n >= MinPad /\ (\A j \in 3..(2 + n) : e[j] # 0) /\ e = Encode(B, SubSeq(e, 3, 2 + n), c, k)) => (Got = [cipher |-> c, key |-> k])
SameAsSpec == Design = "good" => Got = Decode(B, Lens, MinPad, e)
=============================================================================
