------------------------------ MODULE Signing ------------------------------
(***************************************************************************)
(* What a signature covers (RFC 4880, section 5.2.4): for each kind of     *)
(* signature the octets of its subject, followed by a trailer made of the  *)
(* signature's own fields.  Keys are given by their public octets; the     *)
(* digest and the arithmetic of keys are uninterpreted.                    *)
(***************************************************************************)
EXTENDS Octets

\* every line ending (LF, CR or CRLF) as CRLF
CanonStep(a, o) ==
  CASE o = 13 -> [out |-> a.out \o <<13, 10>>, cr |-> TRUE]
    [] o = 10 -> [out |-> IF a.cr THEN a.out ELSE a.out \o <<13, 10>>, cr |-> FALSE]
    [] OTHER -> [out |-> Append(a.out, o), cr |-> FALSE]
Canon(s) == FoldLeft(CanonStep, [out |-> <<>>, cr |-> FALSE], s).out

\* the lines of a text, whatever ends them
LineStep(a, o) ==
  CASE o = 13 -> [done |-> Append(a.done, a.cur), cur |-> <<>>, cr |-> TRUE]
    [] o = 10 /\ a.cr -> [a EXCEPT !.cr = FALSE]
    [] o = 10 -> [done |-> Append(a.done, a.cur), cur |-> <<>>, cr |-> FALSE]
    [] OTHER -> [a EXCEPT !.cur = Append(@, o), !.cr = FALSE]
Lines(s) == LET a == FoldLeft(LineStep, [done |-> <<>>, cur |-> <<>>, cr |-> FALSE], s) IN Append(a.done, a.cur)

KeyHash(b) == <<153>> \o U2(Len(b)) \o b

\* a signature packet's body; id, created and values are octets
SigBody(s) ==
  IF s.version < 4
  THEN <<s.version, 5, s.type>> \o s.created \o s.id \o <<s.palg, s.halg>> \o s.hash2 \o s.values
  ELSE <<s.version, s.type, s.palg, s.halg>> \o U2(Len(s.hashed)) \o s.hashed \o U2(Len(s.unhashed)) \o s.unhashed
       \o s.hash2 \o s.values

Doc == {0, 1}
Certifications == {16, 17, 18, 19}
\* subject: a document, an identity or attribute of a key, a key, a subkey
\* of a key or another signature
Covered(t, it, v) ==
  CASE t = 0 -> it.data
    [] t = 1 -> Canon(it.data)
    [] t = 2 -> <<>>
    [] t \in Certifications \cup {48} ->
         KeyHash(it.key) \o (IF it.kind = "key" THEN <<>>
                             ELSE (IF v < 4 THEN <<>> ELSE <<IF it.kind = "uid" THEN 180 ELSE 209>> \o U4(Len(it.data))) \o it.data)
    [] t \in {24, 25, 40} -> KeyHash(it.key) \o KeyHash(it.sub)
    [] t \in {31, 32} -> KeyHash(it.key)
    [] t = 80 -> LET b == SigBody([it.sig EXCEPT !.unhashed = <<>>]) IN <<136>> \o U4(Len(b)) \o b
Trailer(s) ==
  IF s.version < 4 THEN <<s.type>> \o s.created
  ELSE LET h == <<s.version, s.type, s.palg, s.halg>> \o U2(Len(s.hashed)) \o s.hashed IN h \o <<s.version, 255>> \o U4(Len(h))
SignedOctets(s, it) == Covered(s.type, it, s.version) \o Trailer(s)
=============================================================================
