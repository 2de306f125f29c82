----------------------------- MODULE MCUserIds -----------------------------
(***************************************************************************)
(* An identity is written, then its parts are changed one after another:   *)
(* each change reads the text, replaces one part and writes it again.      *)
(***************************************************************************)
EXTENDS UserIds
CONSTANTS Letters, NameLen, Steps, Design
VARIABLES id, parts, left
vars == <<id, parts, left>>
Str(n) == UNION {[1..k -> Letters] : k \in 0..n}
Names == {n \in Str(NameLen) : n = <<>> \/ (n[1] \notin White /\ n[Len(n)] \notin White)}
Coms == {c \in Str(2) : c = <<>> \/ (c[1] \notin White /\ c[Len(c)] \notin White)}
Mails == {<<>>, <<97, At, 98>>, <<97, Dot, 98, At, 99>>, <<Quote, Sp, Bsl, Quote, Gt, Quote, At, 98>>}
All == [name : Names, mail : Mails, com : Coms]
Small == [name : {<<>>, <<97>>, <<97, Sp, 98>>}, mail : Mails, com : {<<>>, <<97>>}]
\* the comment's text is cut out of the name
RECURSIVE Cut(_, _)
Cut(n, c) == IF Len(n) < Len(c) \/ c = <<>> THEN n
             ELSE IF SubSeq(n, 1, Len(c)) = c THEN Cut(SubSeq(n, Len(c) + 1, Len(n)), c) ELSE <<n[1]>> \o Cut(Tail(n), c)
Get(t) == LET p == Parts(t) IN IF Design = "cut" THEN [p EXCEPT !.name = Cut(@, p.com)] ELSE p
Put(p, s) == IF Design = "raw" THEN Sep(Sep(p.name, Angle(p.mail)), IF p.com = <<>> THEN <<>> ELSE <<Open>> \o p.com \o <<Close>>)
             ELSE IF Design = "lose" THEN Write([p EXCEPT !.com = <<>>], s) ELSE Write(p, s)
Init == /\ left = Steps
        /\ parts \in (IF Steps = 0 THEN All ELSE Small)
        /\ \E s \in Shapes : Fits(parts, s) /\ id = Put(parts, s)
Set(f, v) == left > 0 /\ left' = left - 1 /\ parts' = [parts EXCEPT ![f] = v]
             /\ \E s \in {"before", "after"} : id' = Put([Get(id) EXCEPT ![f] = v], s)
Next == \/ \E v \in Names : Set("name", v)
        \/ \E v \in Mails : Set("mail", v)
        \/ \E v \in Coms : Set("com", v)
Spec == Init /\ [][Next]_vars
SameParts == Get(id) = parts
=============================================================================
