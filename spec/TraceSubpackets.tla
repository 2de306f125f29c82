--------------------------- MODULE TraceSubpackets ---------------------------
EXTENDS Subpackets, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i
If(c, s) == IF c THEN {s} ELSE {}
BadSub(r) ==
  LET o == SubOctets(r.f) IN
  IF r.parse # "ok" THEN {"well-formed subpacket refused"}
  ELSE If(r.rest # 0, "subpacket length read wrongly")
       \cup {"field read wrongly: " \o k : k \in {k \in DOMAIN r.got \ {"bits"} : k \notin DOMAIN r.f \/ r.got[k] # r.f[k]}}
       \cup {"field not read: " \o k : k \in DOMAIN r.f \ (DOMAIN r.got \cup {"flags"})}
       \cup If("bits" \in DOMAIN r.got /\ r.got.bits # FlagBits(r.f), "flags read wrongly")
       \cup If(r.octets # o, "subpacket written differently")
       \cup If(r.content # Content(r.f), "content written differently")
       \cup If(r.built \notin {"ok", "skip"}, "subpacket could not be built from its fields")
       \cup If(r.built = "ok" /\ r.boctets # Content(r.f), "subpacket built from its fields written wrongly")
       \cup If(r.built = "ok" /\ r.bhead # <<r.f.ty, r.f.crit>>, "built subpacket has the wrong type or critical flag")
BadAreas(r) ==
  IF ~AreaOk(r.hashed) \/ ~AreaOk(r.unhashed)
  THEN If(r.parse = "ok", "overrunning or empty subpacket accepted") \cup If(r.parse = "hang", "reader does not end")
  ELSE IF r.parse # "ok" THEN {"signature refused"}
  ELSE If(r.hs # Area(r.hashed), "hashed subpackets read wrongly")
       \cup If(r.us # Area(r.unhashed), "unhashed subpackets read wrongly")
       \cup If(r.body # <<4, 16, 1, 8>> \o U2(Len(r.hashed)) \o r.hashed \o U2(Len(r.unhashed)) \o r.unhashed \o <<1, 2, 0, 1, 1>>,
               "signature written differently")
Bad(r) == IF r.op = "sub" THEN BadSub(r) ELSE BadAreas(r)
TInit == i = 1
TNext == /\ i <= Len(Trace)
         /\ LET b == Bad(Trace[i]) IN b # {} => PrintT(<<"BAD", i, b>>)
         /\ i' = i + 1
         /\ i' > Len(Trace) => PrintT(<<"DONE", Len(Trace)>>)
=============================================================================
