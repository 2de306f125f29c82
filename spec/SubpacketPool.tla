---------------------------- MODULE SubpacketPool ----------------------------
(* Fields of signature subpackets of every kind at boundary values. *)
EXTENDS Subpackets, FiniteSets, Json, IOUtils, TLC
Big == IOEnv.BIG = "1"
R(n, k) == [i \in 1..n |-> (i * 31 + k * 17) % 256]
Times == {<<0, 0, 0, 0>>, <<0, 0, 0, 1>>, <<127, 255, 255, 255>>, <<128, 0, 0, 0>>, <<255, 255, 255, 255>>, <<84, 130, 211, 7>>}
Octs == {0, 1, 2, 127, 128, 255}
Fprs == {R(20, 1), Zeros(20), [i \in 1..20 |-> IF i = 1 THEN 0 ELSE 170 + i]}
KeyIds == {R(8, 1), Zeros(8), <<10, 11, 12, 13, 14, 15, 171, 205>>, <<0, 0, 0, 0, 0, 0, 0, 1>>}
Texts == {<<>>, <<97>>, <<104, 116, 116, 112, 58, 47, 47, 120, 47, 63, 113>>, <<233, 8364, 128512>>, <<97, 768, 10, 13, 0>>,
          <<56448, 97, 56575>>, <<64>>, <<97, 64, 98, 64, 99>>, [i \in 1..190 |-> 97 + (i % 26)], [i \in 1..300 |-> 233]}
NoAt == {t \in Texts : \A i \in 1..Len(t) : t[i] # 64}
Lists == {<<>>, <<0>>, <<9, 8, 7, 3, 2>>, <<255, 0, 255>>, R(20, 3), R(190, 2), R(191, 2), R(256, 4)}
FlagVals == {<<>>, <<0>>, <<0, 0>>, <<255>>, <<255, 255, 1>>, <<0, 1>>, <<128, 0, 0, 0, 64>>} \cup {<<2^b>> : b \in 0..7} \cup {<<255 - 2^b, 7>> : b \in 0..7}
                \cup (IF Big THEN {<<v>> : v \in 0..255} ELSE {})
Hashes == {<<1, 16>>, <<2, 20>>, <<3, 20>>, <<8, 32>>, <<9, 48>>, <<10, 64>>, <<11, 28>>, <<100, 3>>, <<0, 40>>}
\* <<fields>> without crit and form
A4 == [t |-> 2, version |-> 4, stype |-> 25, algo |-> 1, hash |-> 8,
       hashed |-> <<<<5, 2, 84, 0, 0, 1>>, <<4, 200, 1, 2, 3>>>>, unhashed |-> <<<<9, 16>> \o R(8, 2)>>, hash2 |-> <<7, 9>>,
       mpis |-> <<R(128, 3)>>]
A3 == [t |-> 2, version |-> 3, stype |-> 16, algo |-> 17, hash |-> 2, time |-> <<1, 2, 3, 4>>, keyid |-> R(8, 1), hash2 |-> <<0, 1>>,
       mpis |-> <<<<77, 1>>, <<3, 200>>>>]
F0 == [ty : TimeTypes, time : Times]
F1 == [ty : BoolTypes, flag : BOOLEAN]
F2 == [ty : {5}, depth : Octs, amount : Octs]
F3 == [ty : {6, 24, 26, 28}, text : Texts]
F4 == [ty : {10, 12}, flag : BOOLEAN, algo : {1, 17, 255}, fpr : Fprs]
F5 == [ty : ListTypes, list : Lists]
F6 == [ty : {16}, keyid : KeyIds]
F7 == [ty : {20}, flag : {TRUE}, name : NoAt, ns : {<<-1>>} \cup Texts, value : {<<>>, <<118>>, <<233, 10, 0>>, <<56448>>} \cup (IF Big THEN Texts ELSE {})]
      \cup [ty : {20}, flag : {FALSE}, name : {<<110>>, <<233>>}, ns : {<<-1>>, <<>>, <<101, 46, 99>>}, value : Lists]
F8 == [ty : FlagTypes, flags : FlagVals]
F9 == [ty : {29}, code : {0, 1, 2, 3, 32, 100, 255}, text : Texts]
F10 == {[ty |-> 31, algo |-> a, hash |-> h[1], digest |-> R(h[2], a)] : a \in {1, 17}, h \in Hashes}
F11 == {[ty |-> 32, sig |-> s] : s \in {A3, A4}}
F12 == [ty : (0..127) \ (KnownTypes \cup {0}), content : {<<>>, <<1, 2, 3>>}]
       \cup [ty : {0, 1, 8, 13, 33, 100, 110, 127}, content : {<<0>>, R(190, 1), R(191, 1), R(5000, 2), R(8382, 1), R(8383, 1), R(9000, 1), R(16318, 3), R(16319, 5), <<255, 255>>}]
FormsFor(n) == {fo \in {1, 2, 5} : LegalSub(n + 1, fo)}
Dress(fs, crits) ==
  LET s == SetToSeq(fs) IN
  FoldLeft(LAMBDA acc, f : acc \o SetToSeq({f @@ [crit |-> c, form |-> fo] : c \in crits, fo \in FormsFor(Len(Content(f)))}), <<>>, s)
All == Dress(F0, BOOLEAN) \o Dress(F1, BOOLEAN) \o Dress(F2, {FALSE}) \o Dress(F3, BOOLEAN) \o Dress(F4, BOOLEAN) \o Dress(F5, BOOLEAN)
       \o Dress(F6, BOOLEAN) \o Dress(F7, {FALSE}) \o Dress(F8, BOOLEAN) \o Dress(F9, {TRUE}) \o Dress(F10, BOOLEAN) \o Dress(F11, BOOLEAN)
       \o Dress(F12, BOOLEAN)
==============================================================================
