------------------------------- MODULE MCIdea -------------------------------
(***************************************************************************)
(* The multiplication is a group on all 65536 words (explored one word per *)
(* state), and decryption with the derived keys undoes encryption.         *)
(* Design "zero" multiplies the word 0 as the number 0.                    *)
(***************************************************************************)
EXTENDS Idea
CONSTANTS Step, Design
VARIABLE x
M(a, b) == IF Design = "zero" /\ (a = 0 \/ b = 0) THEN 0 ELSE Mul(a, b)
Init == x = 0
Next == x + Step < 65536 /\ x' = x + Step
Spec == Init /\ [][Next]_x
Invertible == M(x, Inv(x)) = 1
\* multiplying by any fixed word is one-to-one: it can be undone
Undone == \A k \in {0, 1, 2, 32768, 65535, 12345} : M(M(x, k), Inv(k)) = x
Commutes == \A k \in {0, 1, 65535, 513} : M(x, k) = M(k, x)
W2(a) == <<a \div 256, a % 256>>
KeyOf(a) == W2(a) \o W2((a * 7) % 65536) \o W2(0) \o W2(65535) \o W2((a + 1) % 65536) \o W2(32768) \o W2(1) \o W2((a * 31) % 65536)
BlockOf(a) == W2((a * 3) % 65536) \o W2(0) \o W2(65535 - a) \o W2(1)
Undo == x % (Step * 64) = 0 => Decrypt(KeyOf(x), Encrypt(KeyOf(x), BlockOf(x))) = BlockOf(x)
\* the published vector
ASSUME Encrypt(<<0, 1, 0, 2, 0, 3, 0, 4, 0, 5, 0, 6, 0, 7, 0, 8>>, <<0, 0, 0, 1, 0, 2, 0, 3>>)
       = <<17, 251, 237, 43, 1, 152, 109, 229>>
=============================================================================
