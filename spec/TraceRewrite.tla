---------------------------- MODULE TraceRewrite ----------------------------
EXTENDS Rewrite, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i
If(c, s) == IF c THEN {s} ELSE {}
Dom(q) == 1..Len(q)
Rng(q) == {q[j] : j \in Dom(q)}
\* no key twice
Map(q) == IF Len(q) = Cardinality(Rng(q)) THEN Rng(q) ELSE {<<"twice">>}
Bad(r) ==
  LET old == Rng(r.start)  new == Apply(old, r.op, FALSE)
      one(p) == If(p.end = "hang", "never ends")
                \cup If(~p.there, "file lost when " \o p.end)
                \cup If(p.there /\ Map(p.file) \notin {old, new}, "neither the old nor the new keyring when " \o p.end)
                \cup If(p.there /\ Map(p.file) \in {old, new} /\ Map(p.file) \notin Outcomes(old, new, p.end), "not changed although successful")
                \cup If(Rng(p.moved) \ {r.op.k} # {}, "other keys changed when " \o p.end)
                \cup If(p.there /\ p.mode # r.mode, "permissions changed when " \o p.end)
                \cup If(p.there /\ Map(p.again) # Map(p.file), "reads differently afterwards")
  IN IF r.res # "ok" THEN {"fails: " \o r.res} ELSE UNION {one(r.points[j]) : j \in Dom(r.points)}
TInit == i = 1
TNext == /\ i <= Len(Trace)
         /\ LET b == Bad(Trace[i]) IN b # {} => PrintT(<<"BAD", i, b>>)
         /\ i' = i + 1
         /\ i' > Len(Trace) => PrintT(<<"DONE", Len(Trace)>>)
=============================================================================
