-------------------------- MODULE TraceIntegrity --------------------------
EXTENDS Naturals, Sequences, FiniteSets, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i
If(c, s) == IF c THEN {s} ELSE {}
\* out[j] is "text" (the original text), "other" (something else was
\* returned), "error" or "hang"
Bad(r) ==
  If(r.bodylen # r.len, "length of the protected data")
  \cup UNION {LET a == r.attacks[j]  o == r.out[j] IN
    IF r.is[j] = "same" THEN If(o # "text", "unaltered message not opened")
    ELSE IF r.is[j] = "other" THEN If(o \notin {"text", "other"}, "another message not opened")
    ELSE If(o = "text", "altered data opened: " \o a.op) \cup If(o = "other", "altered data opened to something else: " \o a.op) \cup If(o = "hang", "does not end: " \o a.op)
    : j \in 1..Len(r.attacks)}
  \cup If(~\E j \in 1..Len(r.attacks) : r.attacks[j].op = "none" /\ r.is[j] = "same", "no unaltered message")
TInit == i = 1
TNext == /\ i <= Len(Trace)
         /\ LET b == Bad(Trace[i]) IN b # {} => PrintT(<<"BAD", i, b>>)
         /\ i' = i + 1
         /\ i' > Len(Trace) => PrintT(<<"DONE", Len(Trace)>>)
=============================================================================
