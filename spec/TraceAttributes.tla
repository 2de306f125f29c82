-------------------------- MODULE TraceAttributes --------------------------
(***************************************************************************)
(* A record: the subpackets read with the media type and data found in     *)
(* them, the program, how each step ended, and at the end what is written, *)
(* what the items say, and each certification made on the way, as the      *)
(* library and a peer judge it.                                            *)
(***************************************************************************)
EXTENDS Attributes, FiniteSets, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i
If(c, s) == IF c THEN {s} ELSE {}
\* what is in an image subpacket that was read
LenForm(s) == IF s[1] = 255 THEN 5 ELSE IF s[1] >= 192 THEN 2 ELSE 1
BodyOf(s) == SubSeq(s, LenForm(s) + 2, Len(s))
TypeOf(s) == s[LenForm(s) + 1]
DataOf(s) == IF TypeOf(s) = 1 THEN SubSeq(BodyOf(s), 17, Len(BodyOf(s))) ELSE BodyOf(s)
Start(r) == [k \in 1..Len(r.start) |-> [raw |-> r.start[k], rm |-> r.mimes[k], rd |-> DataOf(r.start[k]), m |-> r.mimes[k], d |-> DataOf(r.start[k])]]
\* the program, up to where it had to stop: <<items, bodies certified, steps done>>
\* ms: the media types found each time it was read again
RECURSIVE Run(_, _, _, _, _, _)
Run(q, certs, ops, done, ms, odd) ==
  IF ops = <<>> \/ Fails(q, ops[1]) THEN [q |-> q, certs |-> certs, done |-> done, odd |-> odd]
  ELSE IF ops[1].op = "again" THEN
    IF ms = <<>> \/ Len(ms[1]) # Len(q) THEN [q |-> q, certs |-> certs, done |-> done, odd |-> odd \/ ms # <<>>]
    ELSE Run([k \in 1..Len(q) |-> Reread(q[k], ms[1][k])], certs, Tail(ops), done + 1, Tail(ms), odd \/ \E k \in 1..Len(q) : ~Means(q[k], ms[1][k]) /\ ~(Untouched(q[k]) /\ ms[1][k] = q[k].rm))
  ELSE Run(Step(q, ops[1]), IF ops[1].op = "sign" THEN Append(certs, WriteAll(q)) ELSE certs, Tail(ops), done + 1, ms, odd)
Bad(r) ==
  IF r.kind = "form" THEN
    IF WellFormed(r.start[1])
    THEN If(r.read # "ok", "attribute refused: " \o r.read) \cup If(r.read = "ok" /\ r.body # r.start[1], "written otherwise than it was read")
    ELSE If(r.read = "ok", "what is no attribute was read") \cup If(r.read = "hang", "does not end") ELSE
  IF r.read # "ok" THEN {"attribute refused: " \o r.read}
  ELSE LET e == Run(Start(r), IF r.start = <<>> THEN <<>> ELSE <<WriteAll(Start(r))>>, r.ops, 0, r.again, FALSE)
           ok == \A k \in 1..Len(e.q) : CanWrite(e.q[k])
           body == WriteAll(e.q) IN
    If(\E k \in 1..Len(r.start) : TypeOf(r.start[k]) = 1 /\ BodyOf(r.start[k])[4] = 1 /\ r.mimes[k] # "image/jpeg", "an image of another type than stated")
    \cup If(\E k \in 1..Len(r.start) : r.datas[k] # DataOf(r.start[k]), "other data than in the attribute")
    \cup If(e.odd, "read again with another media type or another number of items")
    \cup If(r.done < e.done \/ (r.done < Len(r.ops) /\ ~Fails(e.q, r.ops[r.done + 1])), "step refused: " \o r.why)
    \cup If(r.done > e.done, "what cannot be written was written")
    \cup (IF r.done # e.done THEN {}
          ELSE IF ~ok THEN If(r.body # <<>>, "what cannot be written was written")
          ELSE If(r.body # body, "written otherwise than the items say")
               \cup If(r.m # [k \in 1..Len(e.q) |-> e.q[k].m] \/ r.d # [k \in 1..Len(e.q) |-> e.q[k].d], "other items than were put there")
               \cup If(Len(r.certs) # Len(e.certs), "certifications lost")
               \cup If(Len(r.certs) = Len(e.certs) /\ \E k \in 1..Len(e.certs) : r.certs[k].here # (e.certs[k] = body), "a certification verifies although the attribute changed, or no longer although it did not")
               \cup If(Len(r.certs) = Len(e.certs) /\ \E k \in 1..Len(e.certs) : r.certs[k].peer # (e.certs[k] = body), "another implementation judges the certification differently"))
TInit == i = 1
TNext == /\ i <= Len(Trace)
         /\ LET b == Bad(Trace[i]) IN b # {} => PrintT(<<"BAD", i, b>>)
         /\ i' = i + 1
         /\ i' > Len(Trace) => PrintT(<<"DONE", Len(Trace)>>)
=============================================================================
