----------------------------- MODULE TraceRegex -----------------------------
EXTENDS Regex, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i
Why(v, o) == IF v = "accept" /\ o = "refused" THEN {"a sentence of the grammar is refused"}
             ELSE IF v = "refuse" /\ o = "ok" THEN {"accepted, but not a sentence of the grammar"}
             ELSE IF o \notin {"ok", "refused"} THEN {"neither accepted nor refused: " \o o} ELSE {}
Bad(r) == UNION {Why(Verdict(r.strs[j]), r.res[j]) : j \in 1..Len(r.strs)}
TInit == i = 1
TNext == /\ i <= Len(Trace)
         /\ LET b == Bad(Trace[i]) IN b # {} => PrintT(<<"BAD", i, b>>)
         /\ i' = i + 1
         /\ i' > Len(Trace) => PrintT(<<"DONE", Len(Trace)>>)
=============================================================================
