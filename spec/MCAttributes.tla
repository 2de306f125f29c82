---------------------------- MODULE MCAttributes ----------------------------
(***************************************************************************)
(* Designs of attribute items: what is written must be what certifications *)
(* made before still cover unless something was changed, and must be what  *)
(* the items say.                                                          *)
(***************************************************************************)
EXTENDS Attributes, FiniteSets, TLC
CONSTANTS Design, MaxSteps
VARIABLES q, certs, n
vars == <<q, certs, n>>
\* as read: the second is in a form nobody would write
Long(t, body) == <<255, 0, 0, 0, Len(body) + 1, t>> \o body
Read1 == [raw |-> Sub(1, Image(1, <<7>>)), rm |-> "image/jpeg", rd |-> <<7>>, m |-> "image/jpeg", d |-> <<7>>]
Read2 == [raw |-> Long(1, Image(1, <<8>>)), rm |-> "image/jpeg", rd |-> <<8>>, m |-> "image/jpeg", d |-> <<8>>]
Read3 == [raw |-> Sub(100, <<9>>), rm |-> "text/plain", rd |-> <<9>>, m |-> "text/plain", d |-> <<9>>]
W(x) == CASE Design = "rebuild" -> IF IsImage(x.m) THEN Sub(1, Image(Format(x.m), x.d)) ELSE WriteItem(x)
          [] Design = "stale" -> IF x.raw # <<>> THEN x.raw ELSE WriteItem(x)
          [] Design = "jpeg" -> IF Untouched(x) THEN x.raw ELSE Sub(1, Image(1, x.d))
          [] Design = "big endian" -> IF Untouched(x) THEN x.raw ELSE Sub(1, <<0, 16>> \o Tail(Tail(Image(Format(x.m), x.d))))
          [] OTHER -> WriteItem(x)
RECURSIVE WA(_)
WA(s) == IF s = <<>> THEN <<>> ELSE W(s[1]) \o WA(Tail(s))
Says(s) == [k \in 1..Len(s) |-> [raw |-> IF Untouched(s[k]) THEN s[k].raw ELSE <<>>, m |-> s[k].m, d |-> s[k].d]]
Init == q \in {<<Read1>>, <<Read2, Read1>>, <<Read3>>, <<>>} /\ certs = {[body |-> WriteAll(q), says |-> Says(q)]} /\ n = 0
Ops == {[op |-> o, j |-> j, m |-> "image/png", d |-> <<5>>] : o \in {"data", "mime", "back", "add", "del", "turn", "sign"}, j \in {1, 2}}
Next == /\ n < MaxSteps /\ n' = n + 1
        /\ \E o \in Ops : /\ ~Fails(q, o) /\ (o.op = "back" => Has(q, o.j) /\ q[o.j].raw # <<>>)
                          /\ q' = Step(q, o)
                          /\ certs' = IF o.op = "sign" THEN certs \cup {[body |-> WA(q), says |-> Says(q)]} ELSE certs
Spec == Init /\ [][Next]_vars
\* a certification stands exactly while the items say what was certified
Stands == \A c \in certs : (\A k \in 1..Len(q) : CanWrite(q[k])) => ((c.body = WA(q)) <=> (c.says = Says(q)))
\* what is written says what the items say
ReadBack(w) == LET h == IF w[1] = 255 THEN 6 ELSE 2  b == SubSeq(w, h + 1, Len(w)) IN
  IF w[h] # 1 THEN [m |-> "", d |-> b]
  ELSE [m |-> IF b[4] = 1 THEN "image/jpeg" ELSE "other", d |-> SubSeq(b, b[1] + 256 * b[2] + 1, Len(b))]
Truthful == \A k \in 1..Len(q) : CanWrite(q[k]) /\ IsImage(q[k].m) =>
  LET z == ReadBack(W(q[k])) IN z.d = q[k].d /\ (z.m = "image/jpeg" <=> q[k].m = "image/jpeg")
=============================================================================
