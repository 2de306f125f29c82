---------------------------- MODULE TraceKeyIds ----------------------------
EXTENDS KeyIds, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i
If(c, s) == IF c THEN {s} ELSE {}
Bad(r) ==
  If(r.res # "ok", "key not usable: " \o r.res)
  \cup If(\E j \in 1..Len(r.keys) : Len(r.digests[j]) # DigestLen(r.keys[j]), "oracle and specification disagree")
  \cup UNION {LET o == r.obs[n]  k == r.keys[o.i]  d == r.digests[o.i] IN
              If(o.fp # Fingerprint(k, d), "wrong fingerprint: " \o o.what)
              \cup If(o.bits # -1 /\ o.bits # Size(k.mpis[1]), "wrong size: " \o o.what)
              \cup If(o.kid # KeyId(k, d), "wrong key id: " \o o.what) : n \in 1..Len(r.obs)}
  \cup If(\E m, n \in 1..Len(r.obs) : r.obs[m].grip # "" /\ r.obs[n].grip # "" /\ ((r.obs[m].grip = r.obs[n].grip) # (r.keys[r.obs[m].i].mpis = r.keys[r.obs[n].i].mpis)), "keygrip differs between forms of a key or not between keys")
  \cup If(r.res = "ok" /\ {r.obs[n].i : n \in 1..Len(r.obs)} # 1..Len(r.keys), "a key was lost")
TInit == i = 1
TNext == /\ i <= Len(Trace)
         /\ LET b == Bad(Trace[i]) IN b # {} => PrintT(<<"BAD", i, b>>)
         /\ i' = i + 1
         /\ i' > Len(Trace) => PrintT(<<"DONE", Len(Trace)>>)
=============================================================================
