---------------------------- MODULE TraceUserIds ----------------------------
EXTENDS UserIds, FiniteSets, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i
If(c, s) == IF c THEN {s} ELSE {}
Wrong(got, want, what) ==
  If(got.name # want.name, "wrong name " \o what) \cup If(got.mail # want.mail, "wrong address " \o what)
  \cup If(got.com # want.com, "wrong comment " \o what)
Bad(r) ==
  If(r.res # "ok", "failed: " \o r.res)
  \cup (IF r.res # "ok" \/ r.want = <<>> THEN {} ELSE
        If(Len(r.seen) # Len(r.want), "changes missing")
        \cup UNION {LET w == r.want[j]  s == r.seen[j]
                        how == IF j = 1 THEN "as read" ELSE "after setting the " \o r.ops[j - 1].f IN
                    Wrong(s.got, w, how) \cup Wrong(s.again, w, how \o ", written and read")
                    \cup Wrong(s.issuer, w, how \o ", of a signer")
                    \cup Wrong(Parts(s.id), w, how \o ", in the text")
                    \cup If(j = 1 /\ s.id # r.id, "text changed by reading")
                    : j \in 1..(IF Len(r.seen) < Len(r.want) THEN Len(r.seen) ELSE Len(r.want))})
  \cup {"other text: " \o r.junked[j] : j \in {j \in 1..Len(r.junked) : r.junked[j] # "ok"}}
TInit == i = 1
TNext == /\ i <= Len(Trace)
         /\ LET b == Bad(Trace[i]) IN b # {} => PrintT(<<"BAD", i, b>>)
         /\ i' = i + 1
         /\ i' > Len(Trace) => PrintT(<<"DONE", Len(Trace)>>)
=============================================================================
