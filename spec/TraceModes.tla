----------------------------- MODULE TraceModes -----------------------------
(* Recorded calls of real cipher objects.  Each record carries the block   *)
(* cipher's values that its own reference needed, as pairs.                *)
EXTENDS Modes, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i
If(c, s) == IF c THEN {s} ELSE {}
Table(pairs) == [b \in {pairs[j][1] : j \in 1..Len(pairs)} |-> pairs[CHOOSE j \in 1..Len(pairs) : pairs[j][1] = b][2]]
Bad(r) ==
  LET E == Table(r.e)
      D == Table(r.d)
      W == Calls(r.m, Start(r.m, E), r.parts, r.dec, E, D)
  IN If(r.made # "ok", "no cipher object: " \o r.made)
     \cup UNION {If(r.got[j].ok # W[j].ok, IF r.got[j].ok THEN "data of a wrong length accepted" ELSE "refused: " \o r.got[j].why)
                 \cup If(r.got[j].ok /\ W[j].ok /\ r.got[j].out # W[j].out, IF r.dec THEN "wrong plaintext" ELSE "wrong ciphertext")
                 : j \in 1..Len(r.got)}
     \cup If(r.made = "ok" /\ Len(r.got) # Len(r.parts), "calls lost")
     \cup If(r.made = "ok" /\ ~r.apart, "another cipher object was influenced")
TInit == i = 1
TNext == /\ i <= Len(Trace)
         /\ LET b == Bad(Trace[i]) IN b # {} => PrintT(<<"BAD", i, b>>)
         /\ i' = i + 1
         /\ i' > Len(Trace) => PrintT(<<"DONE", Len(Trace)>>)
=============================================================================
