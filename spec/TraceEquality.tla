---------------------------- MODULE TraceEquality ----------------------------
EXTENDS Equality, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i
If(c, s) == IF c THEN {s} ELSE {}
\* c is a comparison: eq and ne in both orders, and hashes
Decent(c) == /\ c.eq \in {"T", "F"} /\ c.qe \in {"T", "F"} /\ c.ne \in {"T", "F"} /\ c.en \in {"T", "F"}
Clauses(c, w, f, g) ==
  If(~Decent(c), "comparing fails" \o w)
  \cup If(Decent(c) /\ (c.eq # c.qe \/ c.ne # c.en), "equal in one order only" \o w)
  \cup If(Decent(c) /\ c.eq = c.ne, "equal and different at once" \o w)
  \cup If(Decent(c) /\ c.eq # "T" /\ MustEqual(c.what, f, g), "the same but not equal" \o w)
  \cup If(Decent(c) /\ c.eq = "T" /\ MustDiffer(c.what, f, g), "equal but not the same" \o w)
  \cup If(c.eq = "T" /\ c.hash = "differs", "equal with other hashes" \o w)
Bad(r) ==
  IF r.made # "ok" THEN {"cannot be made: " \o r.made}
  ELSE UNION {Clauses(r.pairs[k] @@ [what |-> r.what], "", r.items[1], r.items[k]) : k \in DOMAIN r.pairs}
       \cup UNION {Clauses(r.twins[k] @@ [what |-> r.what], " (made twice)", r.items[k], r.items[k]) : k \in DOMAIN r.twins}
       \cup UNION {IF r.built[k].eq = "none" THEN {}
                   ELSE Clauses(r.built[k] @@ [what |-> r.what], " (read and made)", r.items[k], r.items[k]) : k \in DOMAIN r.built}
       \cup {"comparing with something else: " \o r.foreign[k].w : k \in {k \in DOMAIN r.foreign :
               LET c == r.foreign[k] IN ~(c.eq = "F" /\ c.qe = "F" /\ c.ne = "T" /\ c.en = "T")}}
TInit == i = 1
TNext == /\ i <= Len(Trace)
         /\ LET b == Bad(Trace[i]) IN b # {} => PrintT(<<"BAD", i, b>>)
         /\ i' = i + 1
         /\ i' > Len(Trace) => PrintT(<<"DONE", Len(Trace)>>)
=============================================================================
