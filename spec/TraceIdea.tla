------------------------------ MODULE TraceIdea -----------------------------
EXTENDS Idea, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i
If(c, s) == IF c THEN {s} ELSE {}
Bad(r) ==
  If(r.res # "ok", "refused: " \o r.res)
  \cup If(r.res = "ok" /\ r.enc # Encrypt(r.k, r.b), "encrypts to another block")
  \* the block r.dec is what r.b decrypts to exactly if it encrypts to r.b
  \cup If(r.res = "ok" /\ (Len(r.dec) # 8 \/ Encrypt(r.k, r.dec) # r.b), "decrypts to another block")
  \cup If(r.res = "ok" /\ ~r.modes, "differs through the cipher module")
TInit == i = 1
TNext == /\ i <= Len(Trace)
         /\ LET b == Bad(Trace[i]) IN b # {} => PrintT(<<"BAD", i, b>>)
         /\ i' = i + 1
         /\ i' > Len(Trace) => PrintT(<<"DONE", Len(Trace)>>)
=============================================================================
