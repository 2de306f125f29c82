--------------------------- MODULE TraceKeyOrder ---------------------------
EXTENDS KeyOrder, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i
If(c, s) == IF c THEN {s} ELSE {}
\* r.comps is by kind: the key, identities, attributes, subkeys; r.written,
\* r.public positions of the packets written; r.serial those of the
\* serialised key, r.armor the label; r.way how the octets were handed over,
\* r.filed the positions in the file written
Bad(r) ==
  LET v == Legal(r.toks, r.version)  cs == Edits(Comps(r.toks), r.edits)  w == Write(cs) IN
  IF r.res = "hang" THEN {"does not end"}
  ELSE IF r.res # "ok" THEN If(v = "yes", "legal key refused: " \o r.res)
  ELSE If(v = "no", "illegal order accepted")
       \cup (IF v = "no" THEN {} ELSE
         If(r.comps # Grouped(Comps(r.toks)), "components or their signatures differ")
         \cup If(r.written # w, "written otherwise")
         \cup If(~r.headers, "header format")
         \cup If(r.serial # w, "serialised otherwise")
         \cup If(r.armor # (IF r.secret THEN "PRIVATE KEY BLOCK" ELSE "PUBLIC KEY BLOCK"), "armor label")
         \cup If(r.armored # w, "armored otherwise")
         \cup If(r.filed # w, "another key in the file written")
         \cup (IF r.secret THEN If(r.public # w, "public key differs: " \o r.pubres) \cup If(r.leak, "secret material in the public key") \cup If(r.after # w, "conversion changed the key") ELSE {}))
TInit == i = 1
TNext == /\ i <= Len(Trace)
         /\ LET b == Bad(Trace[i]) IN b # {} => PrintT(<<"BAD", i, b>>)
         /\ i' = i + 1
         /\ i' > Len(Trace) => PrintT(<<"DONE", Len(Trace)>>)
=============================================================================
