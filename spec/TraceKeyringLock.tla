-------------------------- MODULE TraceKeyringLock --------------------------
EXTENDS KeyringLock, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i
If(c, s) == IF c THEN {s} ELSE {}
Dom(q) == 1..Len(q)
Rng(q) == {q[j] : j \in Dom(q)}
Live(r) == r.left \in {"alive", "elsewhere", "other"}
Killed(r) == \E j \in Dom(r.events) : r.events[j].e = "killed"
\* what an event breaks
Breaks(r, st, v) ==
  CASE v.e = "got" -> If(Holders(st) \ {v.p} # {}, "two hold the lock") \cup If(Live(r), "takes a lock that is held")
    [] v.e = "gaveup" -> If(~v.timed, "gives up without a time limit") \cup If(~(v.x = "now" /\ Killed(r)) /\ v.p \notin st.busy /\ ~Live(r) /\ r.left # "self" /\ st.depth[v.p] = 0, "gives up although the lock is free")
                         \cup If(st.depth[v.p] > 0 /\ v.same, "does not get the lock again")
    [] v.e = "free" -> If(Holders(st) # {}, "lock lost by an operation")
    [] v.e = "held" -> If(Holders(st) = {}, "lock kept by an operation")
    [] v.e = "stuck" -> {"never ends"}
    [] v.e = "raised" -> {"fails: " \o v.x}
    [] v.e = "signal" -> {"signals another process"}
    [] OTHER -> {}
RECURSIVE Walk(_, _, _)
Walk(r, j, st) == IF j > Len(r.events) THEN {}
                  ELSE LET v == r.events[j] IN Breaks(r, st, v) \cup Walk(r, j + 1, After(st, v.e, v.p))
Adds(r, ok) == {r.adds[j].k : j \in {j \in Dom(r.adds) : r.adds[j].ok = ok}}
Bad(r) ==
  IF r.res # "ok" THEN {"fails: " \o r.res}
  ELSE Walk(r, 1, Start(r.procs))
       \cup If(~Live(r) /\ ~r.free, "lock not given back")
       \cup If(Live(r) /\ ~r.kept, "removes the lock of another")
       \cup (IF r.kind \in {"ring", "ring threads"}
             THEN LET f == Rng(r.final) IN
                  If(~(({"a"} \cup Adds(r, "yes")) \subseteq f) \/ ~(f \subseteq ({"a"} \cup Adds(r, "yes") \cup Adds(r, "unknown"))) \/ Len(r.final) # Cardinality(f), "changes lost or made twice")
             ELSE {})
TInit == i = 1
TNext == /\ i <= Len(Trace)
         /\ LET b == Bad(Trace[i]) IN b # {} => PrintT(<<"BAD", i, b>>)
         /\ i' = i + 1
         /\ i' > Len(Trace) => PrintT(<<"DONE", Len(Trace)>>)
=============================================================================
