---------------------------- MODULE TracePackets ----------------------------
EXTENDS Packets, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i
If(c, s) == IF c THEN {s} ELSE {}
Bad(r) ==
  LET b == Body(r.f) IN
  IF r.parse # "ok" THEN {"well-formed body refused"}
  ELSE {"field read wrongly: " \o k : k \in {k \in DOMAIN r.f : r.got[k] # r.f[k]}}
       \cup If(r.back # "ok", "parsed packet could not be written")
       \cup If(r.back = "ok" /\ r.octets # b, "parsed packet written differently")
       \cup If(r.built \notin {"ok", "skip"}, "packet could not be built from its fields")
       \cup If(r.built = "ok" /\ r.boctets # b, "packet built from its fields written wrongly")
       \cup If(r.again # TRUE, "written packet is read back differently")
TInit == i = 1
TNext == /\ i <= Len(Trace)
         /\ LET b == Bad(Trace[i]) IN b # {} => PrintT(<<"BAD", i, b>>)
         /\ i' = i + 1
         /\ i' > Len(Trace) => PrintT(<<"DONE", Len(Trace)>>)
=============================================================================
