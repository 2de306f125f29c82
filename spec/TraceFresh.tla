----------------------------- MODULE TraceFresh -----------------------------
(***************************************************************************)
(* A record is the draws of one history, or (whole) draws of one kind and  *)
(* length from the histories of all processes.                             *)
(***************************************************************************)
EXTENDS Fresh, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i
If(c, s) == IF c THEN {s} ELSE {}
One(r) ==
  LET D == r.draws  J == 1..Len(D) IN
  If(r.made # "ok", "refused: " \o r.made)
  \cup {"a " \o D[j].kind \o " of the wrong length" : j \in {j \in J : Len(D[j].val) # Width(D[j])}}
  \cup {"a " \o D[j].kind \o " that is not random" : j \in {j \in J : D[j].kind # "power" /\ Len(D[j].val) >= 8 /\ Flat(D[j].val)}}
  \cup UNION {{IF D[a].kind = D[b].kind THEN "the same " \o D[a].kind \o " again" ELSE "the " \o D[a].kind \o " also serves as " \o D[b].kind : b \in {b \in J : b > a /\ Shares(D[a], D[b])}} : a \in J}
  \cup {"an outsider learns " \o r.open[j] : j \in 1..Len(r.open)}
Whole(r) ==
  LET V == {r.draws[j].val : j \in 1..Len(r.draws)}
  IN
  If(\E v, w \in V : Len(v) # Len(w), "lengths differ")
  \cup (IF Cardinality(V) < 24 \/ r.kind = "power" THEN {} ELSE If(\E j \in 1..r.width : Cardinality({v[j] : v \in V}) < 2, "some octets of a " \o r.kind \o " are always the same")
              \cup If(\E j, k \in 1..r.width : j < k /\ \A v \in V : v[j] = v[k], "some octets of a " \o r.kind \o " always repeat others"))
  \cup If(r.kind = "nonce" /\ \E a, b \in 1..Len(r.draws) : a < b /\ Shares(r.draws[a], r.draws[b]), "the same nonce again in another process")
  \cup If(r.kind # "nonce" /\ Cardinality(V) # Len(r.draws), "the same " \o r.kind \o " again in another process")
Bad(r) == IF r.whole THEN Whole(r) ELSE One(r)
TInit == i = 1
TNext == /\ i <= Len(Trace)
         /\ LET b == Bad(Trace[i]) IN b # {} => PrintT(<<"BAD", i, b>>)
         /\ i' = i + 1
         /\ i' > Len(Trace) => PrintT(<<"DONE", Len(Trace)>>)
=============================================================================
