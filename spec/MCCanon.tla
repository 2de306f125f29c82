------------------------------ MODULE MCCanon ------------------------------
(***************************************************************************)
(* A reader of a text, octet by octet, writing what is signed.  Two texts  *)
(* are read side by side: what is written is the same exactly if they have *)
(* the same lines.                                                         *)
(***************************************************************************)
EXTENDS Signing
CONSTANTS MaxLen, Alphabet, Design
VARIABLES s, t, os, ot, done
vars == <<s, t, os, ot, done>>
Step(a, o) ==
  CASE Design = "lfonly" /\ o = 13 -> [out |-> Append(a.out, 13), cr |-> TRUE]
    [] Design = "lfonly" /\ o = 10 -> [out |-> IF a.cr THEN Append(a.out, 10) ELSE a.out \o <<13, 10>>, cr |-> FALSE]
    [] Design = "twice" /\ o = 10 -> [out |-> a.out \o <<13, 10>>, cr |-> FALSE]
    [] Design = "drop" /\ o = 10 /\ ~a.cr /\ a.out # <<>> ->   \* takes the octet before the LF with it
         [out |-> SubSeq(a.out, 1, Len(a.out) - 1) \o <<13, 10>>, cr |-> FALSE]
    [] OTHER -> CanonStep(a, o)
Empty == [out |-> <<>>, cr |-> FALSE]
Init == s = <<>> /\ t = <<>> /\ os = Empty /\ ot = Empty /\ done = FALSE
ReadS == \E o \in Alphabet : Len(s) < MaxLen /\ s' = Append(s, o) /\ os' = Step(os, o) /\ UNCHANGED <<t, ot, done>>
ReadT == \E o \in Alphabet : Len(t) < MaxLen /\ t' = Append(t, o) /\ ot' = Step(ot, o) /\ UNCHANGED <<s, os, done>>
\* a canonical order of interleavings: s first
Next == (t = <<>> /\ ReadS) \/ ReadT
Spec == Init /\ [][Next]_vars
Same == os.out = ot.out
SameLinesSameOctets == Same <=> (Lines(s) = Lines(t))
\* a fixed point, and no octet but line endings differs
Written == IF Design = "good" THEN Canon(s) = os.out ELSE TRUE
Idempotent == Canon(os.out) = os.out
Kept == LET strip(x) == SelectSeq(x, LAMBDA o : o \notin {10, 13}) IN strip(os.out) = strip(s)
=============================================================================
