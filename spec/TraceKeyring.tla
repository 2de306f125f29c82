---------------------------- MODULE TraceKeyring ----------------------------
EXTENDS Keyring, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i
If(c, s) == IF c THEN {s} ELSE {}
Dom(q) == 1..Len(q)
Rng(q) == {q[j] : j \in Dom(q)}
Is(q, S) == Rng(q) = S /\ Len(q) = Cardinality(S)
Bad(r) ==
  LET ops == r.ops
      RECURSIVE After(_)
      After(j) == IF j = 0 THEN Rng(r.start) ELSE Apply(After(j - 1), ops[j], ops[j].by = r.readonly)
      one(j) == LET op == ops[j]  o == r.seen[j]  now == After(j)  may == Allowed(After(j - 1), op, op.by = r.readonly) IN
        If(o.res = "hang", "never ends")
        \cup If(may /\ o.res # "ok", "refuses: " \o op.do) \cup If(~may /\ o.res = "ok", "accepts: " \o op.do)
        \cup If(~Is(o.file, now), "wrong file after " \o (IF may THEN "" ELSE "refused ") \o op.do)
        \cup If(o.moved \ Touched(op) # {}, "other keys changed by " \o op.do)
        \cup UNION {If(~Is(o.values[p], now), "object differs from the file") : p \in Dom(o.values)}
        \cup UNION {If(~Is(o.members[p], {x.k : x \in now}), "membership wrong") : p \in Dom(o.members)}
        \cup UNION {If(~Is(o.pairs[p], {[k |-> x.k, v |-> x.v, f |-> x.k] : x \in now}), "pairs of fingerprints and keys wrong") : p \in Dom(o.pairs)}
        \cup UNION {If(~Is(o.listed[p], {x.k : x \in now}), "listing wrong") : p \in Dom(o.listed)}
        \cup UNION {LET l == o.looks[p]  F == Finds(now, l.h, l.k) IN
                      CASE l.res = "found" -> If(l.got \notin F, "finds something else by " \o l.h)
                        [] l.res = "none" -> If(F # {}, "does not find by " \o l.h)
                        [] OTHER -> {"lookup fails"} : p \in Dom(o.looks)}
  IN IF r.res # "ok" THEN {"fails: " \o r.res}
     ELSE If(~Is(r.first, Rng(r.start)), "wrong when opened") \cup UNION {one(j) : j \in Dom(ops)}
SetMoved(r) == [r EXCEPT !.seen = [j \in Dom(r.seen) |-> [r.seen[j] EXCEPT !.moved = Rng(r.seen[j].moved)]]]
TInit == i = 1
TNext == /\ i <= Len(Trace)
         /\ LET b == Bad(SetMoved(Trace[i])) IN b # {} => PrintT(<<"BAD", i, b>>)
         /\ i' = i + 1
         /\ i' > Len(Trace) => PrintT(<<"DONE", Len(Trace)>>)
=============================================================================
