------------------------------ MODULE MCForge ------------------------------
(***************************************************************************)
(* Signature values in small groups: a signer makes values for a digest,   *)
(* somebody presents other values.  A verifier that checks their ranges    *)
(* and compares the whole encoded digest accepts the signer's values only. *)
(***************************************************************************)
EXTENDS Naturals, FiniteSets
CONSTANT Design
VARIABLES alg, secret, digest, shown
vars == <<alg, secret, digest, shown>>
RECURSIVE Pow(_, _, _)
Pow(b, e, m) == IF e = 0 THEN 1 % m ELSE (b * Pow(b, e - 1, m)) % m
\* DSA with p = 23, q = 11, g = 2
P == 23
Q == 11
G == 2
Inv(a, m) == CHOOSE b \in 0..(m - 1) : (a * b) % m = 1 % m
HasInv(a, m) == \E b \in 0..(m - 1) : (a * b) % m = 1 % m
Dsa(x, h, k) == LET r == Pow(G, k, P) % Q IN <<r, (Inv(k, Q) * (h + (x * r))) % Q>>
DsaMade(x, h) == {v \in {Dsa(x, h, k) : k \in 1..(Q - 1)} : v[1] # 0 /\ v[2] # 0}
DsaOk(y, h, v) ==
  LET r == v[1]  s == v[2] IN
  /\ Design = "norange" \/ (r \in 1..(Q - 1) /\ s \in 1..(Q - 1))
  /\ HasInv(s % Q, Q)
  /\ LET w == Inv(s % Q, Q) IN ((Pow(G, (h * w) % Q, P) * Pow(y, (r * w) % Q, P)) % P) % Q = r % Q
\* RSA with n = 55, e = 3, d = 27: the encoded digest is 2, then a digest
\* below 4, then a filler 1
N == 55
E == 3
D == 27
Enc(h) == 32 + (h * 4) + 1
RsaMade(h) == {<<Pow(Enc(h), D, N), 0>>}
RsaOk(h, v) ==
  LET m == Pow(v[1], E, N) IN
  /\ Design = "nosize" \/ v[1] < N
  /\ Design = "extra" \/ v[2] = 0
  /\ IF Design = "prefix" THEN m \div 4 = Enc(h) \div 4 ELSE m = Enc(h)
Init == /\ alg \in {"dsa", "rsa"} /\ digest \in 0..3 /\ shown = <<0, 0>>
        /\ secret \in IF alg = "dsa" THEN 1..(Q - 1) ELSE {D}
Show == shown = <<0, 0>> /\ shown' \in (IF alg = "dsa" THEN (0..24) \X (0..24) ELSE (0..112) \X (0..1)) /\ UNCHANGED <<alg, secret, digest>>
Next == Show
Spec == Init /\ [][Next]_vars
Made == IF alg = "dsa" THEN DsaMade(secret, digest) ELSE RsaMade(digest)
Ok(v) == IF alg = "dsa" THEN DsaOk(Pow(G, secret, P), digest, v) ELSE RsaOk(digest, v)
\* in so small a group h + xr = 0 happens, which no signer lets out
Degenerate == alg = "dsa" /\ (digest + (secret * shown[1])) % Q = 0
OnlyMade == (Ok(shown) /\ ~Degenerate) => shown \in Made
MadeOk == \A v \in Made : Ok(v)
=============================================================================
