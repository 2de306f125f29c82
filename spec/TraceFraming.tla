--------------------------- MODULE TraceFraming ---------------------------
EXTENDS Framing, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i
\* old headers have no room for types above 15

Bad(r) ==
  IF r.kind = "read" THEN
    LET x == ReadAll(r.s) IN
    IF r.res = "hang" THEN {"the reader does not terminate"}
    ELSE IF x.phase = "err"
         THEN IF r.res = "err" THEN {}
              ELSE {"truncated input accepted as complete packets"}
    ELSE IF r.res # "ok" THEN {"well-formed packets rejected"}
    ELSE IF Len(r.pk) # Len(x.out) THEN {"wrong number of packets read"}
    ELSE UNION {
      (IF r.pk[k][1] # x.out[k][1] THEN {"wrong header format"} ELSE {})
      \cup (IF r.pk[k][2] # x.out[k][2] THEN {"wrong packet type"} ELSE {})
      \cup (IF r.pk[k][3] # x.out[k][3] THEN {"wrong body length"} ELSE {})
      \cup (IF r.pk[k][4] # 1 THEN {"body octets differ"} ELSE {})
      : k \in 1..Len(x.out)}
  ELSE
    IF r.res # "ok" THEN {"packet could not be serialised"}
    ELSE LET x == ReadAll(r.s) IN
      IF x.phase # "done" THEN {"serialised packets are not well-formed"}
      ELSE IF x.out # [k \in 1..Len(r.pk) |-> <<IF r.pk[k][2] > 15 THEN "new" ELSE r.pk[k][1], r.pk[k][2], r.pk[k][3]>>] THEN {"serialised packets read back differently"}
      ELSE {}

TInit == i = 1
TNext == /\ i <= Len(Trace)
         /\ LET b == Bad(Trace[i]) IN b # {} => PrintT(<<"BAD", i, b>>)
         /\ i' = i + 1
         /\ i' > Len(Trace) => PrintT(<<"DONE", Len(Trace)>>)
=============================================================================
