------------------------------ MODULE TraceS2K ------------------------------
EXTENDS S2K, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i
If(c, s) == IF c THEN {s} ELSE {}
Spec8(s) == CASE s.k = 0 -> <<0, s.hash>> [] s.k = 1 -> <<1, s.hash>> \o s.salt [] OTHER -> <<3, s.hash>> \o s.salt \o <<s.count>>
Bad(r) ==
  LET k == Key(r.digests, r.cipher) IN
  \* the oracle hashed what the specification prescribes
  If(Len(r.digests) # Contexts(r.s2k.hash, r.cipher) \/ \E j \in 1..Len(r.digests) : Len(r.digests[j]) # HashLen[r.s2k.hash],
     "oracle and specification disagree")
  \cup If(r.res # "ok", "no key derived")
  \cup If(r.res = "ok" /\ Len(r.got) # KeyLen[r.cipher], "key has the wrong length")
  \cup If(r.res = "ok" /\ r.got # k, "wrong key")
  \cup If(r.spec # Spec8(r.s2k), "specifier written wrongly")
  \cup If(r.again # k, "key not reproduced from the written specifier")
  \cup If(r.twice # k, "second derivation differs")
TInit == i = 1
TNext == /\ i <= Len(Trace)
         /\ LET b == Bad(Trace[i]) IN b # {} => PrintT(<<"BAD", i, b>>)
         /\ i' = i + 1
         /\ i' > Len(Trace) => PrintT(<<"DONE", Len(Trace)>>)
=============================================================================
