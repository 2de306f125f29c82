--------------------------- MODULE TraceMessage ---------------------------
EXTENDS Message, FiniteSets, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i
If(c, s) == IF c THEN {s} ELSE {}
\* what the reader gave: layers, the literal's fields, whether each signature
\* verifies, whether it writes the same packets again
Got(r, L) ==
  IF r.read.res # "ok" THEN {"legal message refused: " \o r.read.res}
  ELSE If(r.read.layers # L, "other layers than written")
       \cup If(r.read.lit # r.lit, "other content")
       \cup If(r.read.name # r.lit.name \/ r.read.time # r.lit.time \/ r.read.data # r.lit.data, "other name, time or data")
       \cup If(\E j \in 1..Len(r.read.verified) : r.read.verified[j] \notin {"ok", "unnamed"}, "signature no longer verifies")
       \cup If(r.read.again # "ok", "not written as it was read: " \o r.read.again)
       \cup If(r.read.asked # "ok", "not written with the header form asked for: " \o r.read.asked)
Bad(r) ==
  IF r.kind = "read"
  THEN IF Legal(r.toks) THEN Got(r, Layers(r.toks))
       ELSE IF Open(r.toks) THEN {}
       ELSE If(r.read.res = "ok", "illegal message accepted") \cup If(r.read.res = "hang", "does not end")
  ELSE IF r.made # "ok" THEN {"composition refused: " \o r.made}
       ELSE If(r.toks # Write(r.layers), "written in other packets than prescribed")
            \cup If(~r.flags, "packet fields") \cup Got(r, Norm(r.layers))
TInit == i = 1
TNext == /\ i <= Len(Trace)
         /\ LET b == Bad(Trace[i]) IN b # {} => PrintT(<<"BAD", i, b>>)
         /\ i' = i + 1
         /\ i' > Len(Trace) => PrintT(<<"DONE", Len(Trace)>>)
=============================================================================
