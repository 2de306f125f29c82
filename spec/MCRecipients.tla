---------------------------- MODULE MCRecipients ----------------------------
(***************************************************************************)
(* Opening a message: one slot after another is tried.  A slot that is not *)
(* for the opener gives an error, or a session key that is garbage, with   *)
(* which the data does not open - or, without integrity protection, may    *)
(* give other data, which is not a message.                                *)
(***************************************************************************)
EXTENDS Recipients, TLC
CONSTANTS Design, MaxSlots
VARIABLES slots, opener, at, got, result
vars == <<slots, opener, at, got, result>>
Whos == {"A", "B"}
AllSlots == {Slot(k, w) : k \in {"pub", "hid", "bad"}, w \in Whos} \cup {Slot(k, w) : k \in {"sym", "raw"}, w \in {"p", "q"}} \cup {Slot("odd", "A")}
Openers == {[k |-> "key", who |-> w] : w \in {"A", "B", "C"}} \cup {[k |-> "pass", who |-> w] : w \in {"p", "q", "r"}} \cup {[k |-> "locked", who |-> "A"]}
Init == /\ slots \in UNION {[1..n -> AllSlots] : n \in 1..MaxSlots} \cup {<<Slot("default", "p")>>}
        /\ opener \in Openers /\ at = 1 /\ got = "" /\ result = ""
S == slots[at]
Applies == CASE S.k \in {"pub", "bad"} -> opener.k = "key" /\ opener.who = S.who
             [] S.k = "hid" -> opener.k = "key"
             [] S.k \in {"sym", "raw", "default"} -> opener.k = "pass"
             [] OTHER -> FALSE
Skip == result = "" /\ got = "" /\ at <= Len(slots) /\ ~Applies
        /\ (IF Design = "strict" /\ S.k # "pub" /\ opener.k = "key" THEN result' = "error" /\ UNCHANGED at ELSE at' = at + 1 /\ UNCHANGED result)
        /\ UNCHANGED <<slots, opener, got>>
Try == /\ result = "" /\ got = "" /\ at <= Len(slots) /\ Applies
       /\ got' \in IF Fits(S, opener) THEN {"session"} ELSE IF S.k = "bad" THEN {"fail"} ELSE IF S.k \in {"raw", "default"} THEN {"garbage"} ELSE {"garbage", "fail"}
       /\ UNCHANGED <<slots, opener, at, result>>
Use == /\ result = "" /\ got # ""
       /\ (IF got = "session" THEN result' = "message" /\ UNCHANGED at
          ELSE IF got = "garbage" THEN IF Design = "garbage" THEN result' = "error" /\ UNCHANGED at
                                       ELSE IF Design = "lax" THEN result' = "junk" /\ UNCHANGED at ELSE at' = at + 1 /\ UNCHANGED result
          ELSE IF Design = "first" THEN result' = "error" /\ UNCHANGED at ELSE at' = at + 1 /\ UNCHANGED result)
       /\ got' = "" /\ UNCHANGED <<slots, opener>>
Give == result = "" /\ got = "" /\ at > Len(slots) /\ result' = "error" /\ UNCHANGED <<slots, opener, at, got>>
Next == Skip \/ Try \/ Use \/ Give
Spec == Init /\ [][Next]_vars
Intended == result # "" => (result = "message") = Opens(slots, opener)
NoJunk == result # "junk"
\* what is seen of a hidden recipient does not depend on who it is
Seen(s) == CASE s.k = "hid" -> IF Design = "shown" THEN <<"key", s.who>> ELSE <<"key", "">>
             [] s.k \in {"pub", "bad"} -> <<"key", s.who>> [] OTHER -> <<s.k, "">>
HiddenStays == \A j \in 1..Len(slots) : slots[j].k = "hid" => \A w \in Whos : Seen(slots[j]) = Seen([slots[j] EXCEPT !.who = w])
=============================================================================
