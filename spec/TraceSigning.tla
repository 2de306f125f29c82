--------------------------- MODULE TraceSigning ---------------------------
EXTENDS Signing, FiniteSets, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i
If(c, s) == IF c THEN {s} ELSE {}
T(r) == "type " \o ToString(r.s.type) \o " v" \o ToString(r.s.version)
Plain(r) ==
  IF r.res # "ok" THEN {"signing failed: without a digest " \o r.res}
  ELSE If(r.halg # Head(r.prefs), "signed with another digest than the most preferred")
       \cup If(r.version # 4 \/ r.type # r.asked, "another signature than asked for")
       \cup If(~r.covers, "signature does not cover the prescribed octets: without a digest")
       \cup If(r.again # "ok", "own signature refused: without a digest")
Bad(r) ==
  IF "prefs" \in DOMAIN r THEN Plain(r) ELSE
  LET s == r.s  m == r.made IN
  If(r.covered # Covered(s.type, s.item, s.version) \/ r.trailer # Trailer([s EXCEPT !.signer = 0] @@ [palg |-> s.signer.alg]), "oracle and specification disagree")
  \cup UNION {If(r.seen[j].res # "ok", "genuine signature refused: " \o r.seen[j].how \o " " \o T(r) \o " " \o r.seen[j].res) : j \in 1..Len(r.seen)}
  \cup If(m.res # "ok", "signing failed: " \o T(r) \o " " \o m.res)
  \cup (IF m.res # "ok" THEN {} ELSE
        LET f == m.f IN
        If(f.version # s.version \/ f.type # s.type \/ f.halg # s.halg \/ f.palg # s.signer.alg, "another signature than asked for")
        \cup If(f.trailer # Trailer(f), "oracle and specification disagree")
        \cup If(~m.covers, "signature does not cover the prescribed octets: " \o T(r))
        \cup If(~m.hash2, "wrong first digest octets")
        \cup If(~m.issuer, "issuer not stated")
        \cup If(~m.fresh, "wrong creation time")
        \cup If(~m.kept, "the caller's list of attributes was changed")
        \cup If(~m.asked, "asked-for attributes are not hashed")
        \cup UNION {If(r.again[j].res # "ok", "own signature refused: " \o r.again[j].how \o " " \o T(r) \o " " \o r.again[j].res) : j \in 1..Len(r.again)})
TInit == i = 1
TNext == /\ i <= Len(Trace)
         /\ LET b == Bad(Trace[i]) IN b # {} => PrintT(<<"BAD", i, b>>)
         /\ i' = i + 1
         /\ i' > Len(Trace) => PrintT(<<"DONE", Len(Trace)>>)
=============================================================================
