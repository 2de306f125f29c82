--------------------------- MODULE TraceSessionKey ---------------------------
EXTENDS SessionKey, S2K, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i
If(c, s) == IF c THEN {s} ELSE {}
Found(r) == IF r.fam = "key" THEN (IF r.outer = "plain" THEN Decode(256, KeyLen, 8, r.block) ELSE None) ELSE DecodeSym(KeyLen, r.block)
Bad(r) ==
  LET f == Found(r)
      \* the data is encrypted with the good key if there is one
      opens == r.then \/ (f.cipher = r.cipher /\ f.key = r.session) IN
  If(opens /\ r.res # "text", "a good session key was refused" \o (IF r.then THEN " after a bad one: " ELSE ": ") \o r.res)
  \cup If(~opens /\ r.res \in {"text", "other text", "hang"}, "no session key, and yet: " \o r.res)
TInit == i = 1
TNext == /\ i <= Len(Trace)
         /\ LET b == Bad(Trace[i]) IN b # {} => PrintT(<<"BAD", i, b>>)
         /\ i' = i + 1
         /\ i' > Len(Trace) => PrintT(<<"DONE", Len(Trace)>>)
=============================================================================
