---------------------------- MODULE TraceForge ----------------------------
EXTENDS Signing, Bitwise, FiniteSets, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i
If(c, s) == IF c THEN {s} ELSE {}
KindTypes(k) == CASE k = "doc" -> {0, 1, 2} [] k \in {"uid", "uat"} -> {16, 17, 18, 19, 48} [] k = "key" -> {31, 32, 48} [] k = "subkey" -> {24, 25, 40} [] k = "sig" -> {80}
Legal(p) == p.type \in KindTypes(p.item.kind)
Octs(p) == Covered(p.type, p.item, p.version) \o Trailer(p)
\* what is shown is what was signed: to the octet, but for the line endings
\* of a text and the unhashed attributes of a certified signature
SameItem(p, s) ==
  LET a == p.item  b == s.item IN
  CASE s.type = 2 -> a = b
    [] s.type = 1 -> Lines(a.data) = Lines(b.data)
    [] s.type = 80 -> [a EXCEPT !.sig.unhashed = <<>>] = [b EXCEPT !.sig.unhashed = <<>>]
    [] OTHER -> <<a.kind, a.key, a.sub, a.data>> = <<b.kind, b.key, b.sub, b.data>>
Same(p, s) == /\ Legal(p) /\ p.type = s.type /\ p.halg = s.halg /\ p.palg = s.palg /\ p.by = s.by /\ p.value = "genuine"
              /\ (p.version = s.version \/ (p.version < 4 /\ s.version < 4))
              /\ p.hashed = s.hashed /\ p.created = s.created /\ p.id = s.id /\ SameItem(p, s)
\* left open: unhashed attributes; and what version 3 cannot tell apart
Open(p, s) == \/ s.type = 2 /\ [p EXCEPT !.item = s.item, !.unhashed = s.unhashed] = s
              \/ [p EXCEPT !.unhashed = s.unhashed] = s
              \/ /\ p.version < 4 /\ s.version < 4 /\ p.item.kind # "doc" /\ s.item.kind # "doc" /\ p.type = s.type
                 /\ <<p.value, p.by, p.halg, p.palg, p.id, p.created>> = <<"genuine", s.by, s.halg, s.palg, s.id, s.created>>
                 /\ <<p.item.key, p.item.sub, p.item.data>> = <<s.item.key, s.item.sub, s.item.data>>
What(p, s) ==
  (IF p.item # s.item THEN "subject " ELSE "") \o (IF p.type # s.type THEN "kind " ELSE "") \o (IF p.halg # s.halg THEN "digest " ELSE "")
  \o (IF p.palg # s.palg THEN "algorithm " ELSE "") \o (IF p.by # s.by THEN "key " ELSE "") \o (IF p.version # s.version THEN "version " ELSE "")
  \o (IF p.hashed # s.hashed THEN "attributes " ELSE "") \o (IF p.created # s.created THEN "time " ELSE "") \o (IF p.id # s.id THEN "issuer " ELSE "")
  \o (IF p.value # "genuine" THEN "value " \o p.value ELSE "")
\* single altered bits: those of the unhashed attributes, of the number 2
\* or 3 of an old version and of the declared size of a value stay open
BitOpen(r, a) ==
  LET s == r.s IN
  IF a[1] = "packet"
  THEN \/ \E j \in 1..Len(r.mpis) : a[2] \in {r.mpis[j] + 1, r.mpis[j] + 2}
       \/ s.version < 4 /\ a[2] = 1
       \/ s.version >= 4 /\ a[2] \in (Len(s.hashed) + 7)..(Len(s.hashed) + 8 + Len(s.unhashed))
  ELSE s.type = 1 /\ Lines(s.item.data) = Lines([s.item.data EXCEPT ![a[2]] = @ ^^ (2^a[3])])
Bits(r) == UNION {LET a == r.accepted[j] IN If(~BitOpen(r, a), "altered bit accepted: " \o a[1] \o " octet " \o ToString(a[2])) : j \in 1..Len(r.accepted)}
Bad(r) ==
  Bits(r) \cup
  UNION {LET o == r.shown[j]  p == o.p  s == r.s IN
    IF Same(p, s) THEN If(o.adjusted # "ok" /\ p.unhashed = s.unhashed, "genuine signature refused")
    ELSE IF Open(p, s) THEN {}
    ELSE If(o.adjusted = "ok", "altered signature accepted: " \o What(p, s))
         \cup If(o.kept = "ok", "altered signature accepted with its first digest octets kept: " \o What(p, s))
         \* what differs must differ in the octets too
         \cup If(Legal(p) /\ p.value = "genuine" /\ <<p.halg, p.by, p.palg>> = <<s.halg, s.by, s.palg>> /\ p.id = s.id /\ Octs(p) = Octs(s), "specification cannot tell")
    : j \in 1..Len(r.shown)}
TInit == i = 1
TNext == /\ i <= Len(Trace)
         /\ LET b == Bad(Trace[i]) IN b # {} => PrintT(<<"BAD", i, b>>)
         /\ i' = i + 1
         /\ i' > Len(Trace) => PrintT(<<"DONE", Len(Trace)>>)
=============================================================================
