---------------------------- MODULE MCSubpackets ----------------------------
(* A writer appends subpackets of any kind, length form and flag to an     *)
(* area, which may then be cut; a reader walks over it.  What is read is   *)
(* what was written, and a cut inside a subpacket is noticed.              *)
EXTENDS Subpackets
CONSTANTS Lens, MaxSubs, TopTwo, CheckOverrun
VARIABLES area, sent, pc, pos, got
vars == <<area, sent, pc, pos, got>>
S(ty, crit, n, form) == [ty |-> ty, crit |-> crit, form |-> form, content |-> [i \in 1..n |-> (ty + i) % 256]]
Subs == {s \in {S(ty, cr, n, fo) : ty \in {1, 127}, cr \in BOOLEAN, n \in Lens, fo \in {1, 2, 5}} :
          LegalSub(Len(s.content) + 1, s.form)}
Init == area = <<>> /\ sent = <<>> /\ pc = "write" /\ pos = 1 /\ got = <<>>
Write(s) == /\ pc = "write" /\ Len(sent) < MaxSubs
            /\ area' = area \o SubOctets(s)
            /\ sent' = Append(sent, <<s.ty, s.crit, s.content>>)
            /\ UNCHANGED <<pc, pos, got>>
Send == pc = "write" /\ pc' = "read" /\ UNCHANGED <<area, sent, pos, got>>
Cut(k) == /\ pc = "write" /\ k < Len(area) /\ area' = SubSeq(area, 1, Len(area) - k)
          /\ pc' = "cutread" /\ UNCHANGED <<sent, pos, got>>
\* the reader of the design under test
Head2(a, i) ==
  LET h == HeadAt(a, i) IN
  IF a[i] > TopTwo /\ a[i] < 255 THEN <<>>
  ELSE IF h = <<>> /\ ~CheckOverrun /\ Len(a) > i + 1 /\ a[i] < 192 /\ a[i] > 0
       THEN <<i + 2, Len(a), a[i + 1] % 128, a[i + 1] >= 128>>
  ELSE h
Read == /\ pc \in {"read", "cutread"} /\ pos <= Len(area)
        /\ LET h == Head2(area, pos) IN
           IF h = <<>> THEN pc' = (IF pc = "read" THEN "refused" ELSE "cutrefused") /\ UNCHANGED <<area, sent, pos, got>>
           ELSE /\ got' = Append(got, <<h[3], h[4], SubSeq(area, h[1], h[2])>>)
                /\ pos' = h[2] + 1 /\ UNCHANGED <<area, sent, pc>>
Finish == /\ pc \in {"read", "cutread"} /\ pos > Len(area)
          /\ pc' = (IF pc = "read" THEN "done" ELSE "cutdone") /\ UNCHANGED <<area, sent, pos, got>>
Next == (\E s \in Subs : Write(s)) \/ Send \/ (\E k \in 1..3 : Cut(k)) \/ Read \/ Finish
Spec == Init /\ [][Next]_vars
RoundTrip == /\ pc = "done" => got = sent
             /\ pc # "refused"
\* a reader of a cut area never invents a subpacket
CutSound == pc = "cutdone" => got = SubSeq(sent, 1, Len(got))
Agree == pc = "done" => got = Area(area)
=============================================================================
