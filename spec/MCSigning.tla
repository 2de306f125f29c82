----------------------------- MODULE MCSigning -----------------------------
(***************************************************************************)
(* Someone with a genuine signature changes what is presented with it:     *)
(* subject, kind, attributes, algorithms, verifying key.  A verifier that  *)
(* digests the prescribed octets accepts exactly what was signed.          *)
(***************************************************************************)
EXTENDS Signing, FiniteSets
CONSTANT Design
VARIABLES signed, shown, steps
vars == <<signed, shown, steps>>
D6 == <<4, 0, 1, 8, 0, 6>>
H6 == <<4, 0, 1, 8, 0, 0>>
Docs == {<<>>, <<10>>, <<13>>, D6, H6, <<153, 0, 1, 7>>, <<153, 0, 1, 7, 180, 0, 0, 0, 1, 65>>}
Bodies == {<<7>>, <<7, 65>>, <<153, 0, 1, 7>>}
Uids == {<<>>, <<65>>, <<65, 4>>, <<209, 0, 0, 0, 1, 65>>}
N == [kind |-> "doc", data |-> <<>>, key |-> <<>>, sub |-> <<>>, sig |-> <<>>]
Sigs == {[version |-> 4, type |-> 0, palg |-> 1, halg |-> 8, created |-> <<0, 0, 0, 1>>, id |-> <<1>>, hashed |-> h, unhashed |-> u,
          hash2 |-> <<1, 2>>, values |-> <<0, 1, 1>>] : h \in {<<>>, <<9>>}, u \in {<<>>, <<9>>}}
Items == {[N EXCEPT !.data = d] : d \in Docs}
  \cup {[N EXCEPT !.kind = k, !.data = u, !.key = b] : k \in {"uid", "uat"}, u \in Uids, b \in Bodies}
  \cup {[N EXCEPT !.kind = "key", !.key = b] : b \in Bodies}
  \cup {[N EXCEPT !.kind = "subkey", !.key = b, !.sub = c] : b \in Bodies, c \in Bodies}
  \cup {[N EXCEPT !.kind = "sig", !.sig = g] : g \in Sigs}
TypesFor(k) == CASE k = "doc" -> {0, 1} [] k \in {"uid", "uat"} -> {16, 19, 48} [] k = "key" -> {31, 32, 48}
                 [] k = "subkey" -> {24, 25, 40} [] k = "sig" -> {80}
Created == {<<0, 0, 0, 1>>, <<0, 4, 255, 0>>}
Hashed == {<<>>, <<9>>, H6}
S(v, t, h, c, halg) == [version |-> v, type |-> t, palg |-> 1, halg |-> halg, created |-> c, id |-> <<1>>, hashed |-> h, unhashed |-> <<>>]
Forms == {S(4, 0, h, <<0, 0, 0, 0>>, a) : h \in Hashed, a \in {2, 8}} \cup {S(3, 0, <<>>, c, a) : c \in Created, a \in {2, 8}}
\* what a verifier of the design digests
Seen(p) ==
  LET s == p.sig  it == p.item  IN
  CASE Design = "notype" /\ s.version >= 4 ->
         Covered(s.type, it, 4) \o <<4, s.palg, s.halg>> \o U2(Len(s.hashed)) \o s.hashed \o <<4, 255>> \o U4(6 + Len(s.hashed))
    [] Design = "noattributes" /\ s.version >= 4 -> SignedOctets([s EXCEPT !.hashed = <<>>], it)
    [] Design = "nolength" /\ s.version >= 4 /\ it.kind \in {"uid", "uat"} -> KeyHash(it.key) \o it.data \o Trailer(s)
    [] Design = "nocount" /\ s.version >= 4 ->
         LET x == SignedOctets(s, it) IN SubSeq(x, 1, Len(x) - 6)
    [] Design = "nosubkey" /\ it.kind = "subkey" -> KeyHash(it.key) \o Trailer(s)
    [] OTHER -> SignedOctets(s, it)
\* the arithmetic binds the key and the digest algorithm to the octets
Accepts(a, b) == a.signer = b.signer /\ a.sig.halg = b.sig.halg /\ Seen(a) = Seen(b)
\* version 3 certifications cannot tell an identity from an attribute, or an
\* empty one from the key alone; line endings do not count in texts
Norm(p) ==
  LET s == p.sig  it == p.item IN
  [signer |-> p.signer,
   sig |-> IF s.version < 4 THEN <<3, s.type, s.halg, s.created>> ELSE <<4, s.type, s.palg, s.halg, s.hashed>>,
   item |-> CASE s.type = 1 -> <<"text", Lines(it.data)>>
              [] it.kind \in {"uid", "uat", "key"} /\ s.version < 4 -> <<"uid", it.key, it.data>>
              [] it.kind \in {"uid", "uat"} -> <<it.kind, it.key, it.data>>
              [] it.kind = "sig" -> <<"sig", [it.sig EXCEPT !.unhashed = <<>>]>>
              [] OTHER -> <<it.kind, it.key, it.sub, it.data>>]
Present == {[signer |-> 1, item |-> it, sig |-> [f EXCEPT !.type = t]] : it \in Items, f \in Forms, t \in {0, 1, 16, 19, 24, 25, 31, 32, 40, 48, 80}}
Legal == {p \in Present : p.sig.type \in TypesFor(p.item.kind)}
Init == signed \in Legal /\ shown = signed /\ steps = 0
Change == steps = 0 /\ steps' = 1 /\ shown' \in Legal /\ UNCHANGED signed
OtherKey == steps = 0 /\ steps' = 1 /\ shown' = [signed EXCEPT !.signer = 2] /\ UNCHANGED signed
Next == Change \/ OtherKey
Spec == Init /\ [][Next]_vars
OnlyGenuine == Accepts(signed, shown) => Norm(signed) = Norm(shown)
GenuineAccepted == Norm(signed) = Norm(shown) => Accepts(signed, shown)
=============================================================================
