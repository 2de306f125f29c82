---------------------------- MODULE TraceCanon ----------------------------
(***************************************************************************)
(* Signatures made by the code over a text in some form and version:       *)
(* whether they cover its canonical form and its own octets; and whether   *)
(* it accepts signatures over a text for variants of the text.             *)
(***************************************************************************)
EXTENDS Signing, FiniteSets, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i
If(c, s) == IF c THEN {s} ELSE {}
Kind(t) == IF t = 1 THEN "text" ELSE "binary"
Bad(r) ==
  UNION {LET o == r.made[j] IN
         If(o.res # "ok", "signing a text failed: " \o o.form \o " " \o o.res)
         \cup If(o.res = "ok" /\ o.type = 1 /\ ~o.canon, "text signature is not over the canonical text: " \o o.form)
         \cup If(o.res = "ok" /\ o.type = 0 /\ ~o.raw, "binary signature is not over the octets: " \o o.form) : j \in 1..Len(r.made)}
  \cup UNION {LET o == r.seen[j]
                  v == r.variants[o.v]
                  same == IF o.type = 1 THEN Lines(v) = Lines(r.text) ELSE v = r.text IN
              If(same /\ o.res # "ok", Kind(o.type) \o " signature refused for the same text: " \o o.form)
              \cup If(~same /\ o.res = "ok", Kind(o.type) \o " signature accepted for another text: " \o o.form) : j \in 1..Len(r.seen)}
  \cup If(r.canon # Canon(r.text), "oracle and specification disagree")
TInit == i = 1
TNext == /\ i <= Len(Trace)
         /\ LET b == Bad(Trace[i]) IN b # {} => PrintT(<<"BAD", i, b>>)
         /\ i' = i + 1
         /\ i' > Len(Trace) => PrintT(<<"DONE", Len(Trace)>>)
=============================================================================
