-------------------------- MODULE TraceRecipients --------------------------
EXTENDS Recipients, FiniteSets, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i
If(c, s) == IF c THEN {s} ELSE {}
Bad(r) ==
  IF r.made # "ok" THEN {"encryption refused: " \o r.made}
  ELSE If(r.text # r.peer, "another implementation reads something else")
       \cup If(r.ids # [j \in 1..Len(r.ids) |-> IF r.want[j].k = "hid" THEN "" ELSE r.want[j].who] \/ Len(r.ids) # Len(r.want), "recipients as named")
       \cup If(r.options # "ok", r.options)
       \cup If(r.leak, "hidden recipient is named")
       \cup UNION {LET o == r.openers[j]  x == r.opened[j] IN
              IF Opens(r.slots, o) THEN If(x.res # "ok", "not opened for " \o o.k \o " " \o o.who \o ": " \o x.res) \cup If(x.res = "ok" /\ x.text # r.text, "opened to something else")
              ELSE If(x.res = "ok", "opened for " \o o.k \o " " \o o.who) \cup If(x.res = "hang", "does not end")
            : j \in 1..Len(r.openers)}
TInit == i = 1
TNext == /\ i <= Len(Trace)
         /\ LET b == Bad(Trace[i]) IN b # {} => PrintT(<<"BAD", i, b>>)
         /\ i' = i + 1
         /\ i' > Len(Trace) => PrintT(<<"DONE", Len(Trace)>>)
=============================================================================
