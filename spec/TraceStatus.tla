---------------------------- MODULE TraceStatus ----------------------------
EXTENDS Status, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i
If(c, s) == IF c THEN {s} ELSE {}
Rng(q) == {q[j] : j \in Dom(q)}
Same(q, S) == Rng(q) = S /\ Len(q) = Cardinality(S)
\* some statement that all attributes read as
Agrees(says, V) == \E v \in V : \A a \in DOMAIN says : v \in Rng(says[a])
At(q, S) == IF S = {} THEN {0} ELSE {q[j].at : j \in Newest(q, S)}
Bad(r) ==
  LET q == r.sigs  ident == r.item \in {"uid", "uat"}
      one(k) == LET now == r.nows[k]  o == r.seen[k]  cur == Current(r.item, q, now)  rev == Revocations(q, now)  dead == rev # {} IN
        If(~Again(r.item, q, now) /\ o.revoked # dead, IF dead THEN "revocation not reported" ELSE "revoked by somebody else")
        \cup If(~Same(o.self, OwnSigs(q)), "own signatures wrong") \cup If(~Same(o.revs, rev), "own revocations wrong")
        \cup (IF dead /\ ~ident THEN {} ELSE
                If(~Same(o.current, cur), "current signatures wrong")
                \cup If(ident /\ o.made \notin At(q, cur), "certified at another time")
                \cup If((ident \/ r.version = 4) /\ ~Agrees(o.says, Stated(q, cur)), "states something else"))
        \cup If((ident \/ r.version = 4) /\ ~Agrees(o.why, Stated(q, rev)), "other reason for revocation")
        \cup UNION {If(o.ended[j] # Ended(q[j], now), IF o.ended[j] THEN "expired too early" ELSE "not expired in time") : j \in Dom(q)}
        \cup UNION {If((ident \/ \A m \in Dom(q) : q[m].kind # "r") /\ q[j].at # 0 /\ q[j].kind = "c" /\ o.gone[j] # IsRevoked(r.item, q, j, now), "signature revoked or not") : j \in Dom(q)}
      \* what is assigned to an item is stated by its newest signature, and nothing else changes
      given(o) == LET now == r.nows[1]  rev == Revocations(q, now)
                      cur == IF o.why THEN rev ELSE Current(r.item, q, now)  N == IF cur = {} THEN {} ELSE Newest(q, cur) IN
        IF rev # {} /\ ~ident /\ ~o.why THEN {}
        ELSE If(~(Rng(o.changed) \subseteq N), "assigning changes another signature") \cup If(Len(o.changed) > 1, "assigning changes several signatures")
             \cup If(~o.kept, "assigning changes other attributes") \cup If(cur # {} /\ (o.res # "ok" \/ ~o.reads \/ o.changed = <<>>), "does not read what was assigned")
  IN IF r.res # "ok" THEN {"fails: " \o r.res} ELSE UNION {one(k) : k \in Dom(r.nows)} \cup UNION {given(r.assigned[k]) : k \in Dom(r.assigned)} \cup If(~Same(r.own, OwnSigs(q)), "taken for a self-signature or not")
TInit == i = 1
TNext == /\ i <= Len(Trace)
         /\ LET b == Bad(Trace[i]) IN b # {} => PrintT(<<"BAD", i, b>>)
         /\ i' = i + 1
         /\ i' > Len(Trace) => PrintT(<<"DONE", Len(Trace)>>)
=============================================================================
