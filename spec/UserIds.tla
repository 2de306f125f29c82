------------------------------ MODULE UserIds ------------------------------
(***************************************************************************)
(* User identities: a name, an e-mail address and a comment written in the *)
(* form of a mail address, read one character (code point) at a time.      *)
(***************************************************************************)
EXTENDS Naturals, Sequences
Sp == 32  Tab == 9  Quote == 34  Bsl == 92  Open == 40  Close == 41  Lt == 60  Gt == 62  At == 64  Dot == 46
Specials == {Open, Close, Lt, Gt, At, 44, 58, 59, Dot, Quote, 91, 93}
Breaks == {10, 13}
White == {Sp, Tab} \cup Breaks
IsIn(c, t) == \E j \in 1..Len(t) : t[j] = c
RECURSIVE Joined(_)
Joined(s) == IF s = <<>> THEN <<>> ELSE IF Len(s) = 1 THEN s[1] ELSE s[1] \o <<Sp>> \o Joined(Tail(s))

\* mode: p phrase, q quoted word, c comment, a address, b quoted text in an address; x: after a backslash
R0 == [mode |-> "p", x |-> FALSE, words |-> <<>>, cur |-> <<>>, coms |-> <<>>, com |-> <<>>, deep |-> 0,
       mail |-> <<>>, angled |-> FALSE, at |-> FALSE, ws |-> <<>>]
EndWord(s) == IF s.cur = <<>> THEN s ELSE [s EXCEPT !.words = Append(@, s.cur), !.cur = <<>>]
ReadStep(s, c) ==
  CASE s.x /\ s.mode = "q" -> [s EXCEPT !.x = FALSE, !.cur = Append(@, c), !.ws = Append(@, c)]
    [] s.x /\ s.mode = "c" -> [s EXCEPT !.x = FALSE, !.com = Append(@, c)]
    [] s.x /\ s.mode = "b" -> [s EXCEPT !.x = FALSE, !.mail = Append(@, c)]
    [] s.mode = "q" -> CASE c = Bsl -> [s EXCEPT !.x = TRUE, !.ws = Append(@, c)]
                         [] c = Quote -> [s EXCEPT !.mode = "p", !.words = Append(@, s.cur), !.cur = <<>>, !.ws = Append(@, c)]
                         [] OTHER -> [s EXCEPT !.cur = Append(@, c), !.ws = Append(@, c)]
    [] s.mode = "c" -> CASE c = Bsl -> [s EXCEPT !.x = TRUE]
                         [] c = Open -> [s EXCEPT !.deep = @ + 1, !.com = Append(@, c)]
                         [] c = Close /\ s.deep > 0 -> [s EXCEPT !.deep = @ - 1, !.com = Append(@, c)]
                         [] c = Close -> [s EXCEPT !.mode = "p", !.coms = Append(@, s.com), !.com = <<>>]
                         [] OTHER -> [s EXCEPT !.com = Append(@, c)]
    [] s.mode = "a" -> CASE c = Gt -> [s EXCEPT !.mode = "p"]
                         [] c = Quote -> [s EXCEPT !.mode = "b", !.mail = Append(@, c)]
                         [] OTHER -> [s EXCEPT !.mail = Append(@, c)]
    [] s.mode = "b" -> CASE c = Quote -> [s EXCEPT !.mode = "a", !.mail = Append(@, c)]
                         [] c = Bsl -> [s EXCEPT !.x = TRUE, !.mail = Append(@, c)]
                         [] OTHER -> [s EXCEPT !.mail = Append(@, c)]
    [] c \in White -> EndWord(s)
    [] c = Quote -> [EndWord(s) EXCEPT !.mode = "q", !.ws = Append(@, c)]
    [] c = Open -> [EndWord(s) EXCEPT !.mode = "c"]
    [] c = Lt -> [EndWord(s) EXCEPT !.mode = "a", !.angled = TRUE]
    [] OTHER -> [s EXCEPT !.cur = Append(@, c), !.ws = Append(@, c), !.at = @ \/ c = At]
RECURSIVE ReadAll(_, _, _)
ReadAll(s, t, i) == IF i > Len(t) THEN EndWord(s) ELSE ReadAll(ReadStep(s, t[i]), t, i + 1)
\* without "<" an address is what stands outside comments
Parts(t) == LET s == ReadAll(R0, t, 1) IN
            [name |-> IF ~s.angled /\ s.at THEN <<>> ELSE Joined(s.words),
             mail |-> IF ~s.angled /\ s.at THEN s.ws ELSE s.mail,
             com |-> Joined(s.coms)]

\* writing: what must be quoted, and how
RECURSIVE Escape(_, _)
Escape(t, what) == IF t = <<>> THEN <<>> ELSE (IF t[1] \in what THEN <<Bsl, t[1]>> ELSE <<t[1]>>) \o Escape(Tail(t), what)
Plain(n) == /\ \A j \in 1..Len(n) : n[j] \notin ((Specials \ {Dot}) \cup {Bsl, Tab} \cup Breaks)
            /\ \A j \in 1..Len(n) : n[j] = Sp => j > 1 /\ j < Len(n) /\ n[j + 1] # Sp
Quoted(n) == <<Quote>> \o Escape(n, {Quote, Bsl, 13}) \o <<Quote>>
Name(n, always) == IF n # <<>> /\ (always \/ ~Plain(n)) THEN Quoted(n) ELSE n
Comment(c) == IF c = <<>> THEN <<>> ELSE <<Open>> \o Escape(c, {Open, Close, Bsl, 13}) \o <<Close>>
Sep(a, b) == IF a = <<>> THEN b ELSE IF b = <<>> THEN a ELSE a \o <<Sp>> \o b
Angle(m) == IF m = <<>> THEN <<>> ELSE <<Lt>> \o m \o <<Gt>>
\* shapes: comment before or after the address, a bare address, no space before "<", a quoted name, two comments
Write(p, shape) ==
  CASE shape = "before" -> Sep(Sep(Name(p.name, FALSE), Comment(p.com)), Angle(p.mail))
    [] shape = "after" -> Sep(Sep(Name(p.name, FALSE), Angle(p.mail)), Comment(p.com))
    [] shape = "bare" -> Sep(p.mail, Comment(p.com))
    [] shape = "bare before" -> Sep(Comment(p.com), p.mail)
    [] shape = "tight" -> Name(p.name, FALSE) \o Comment(p.com) \o Angle(p.mail)
    [] shape = "quoted" -> Sep(Sep(Name(p.name, TRUE), Comment(p.com)), Angle(p.mail))
    [] shape = "first" -> Sep(Sep(Comment(p.com), Name(p.name, FALSE)), Angle(p.mail))
Shapes == {"before", "after", "bare", "bare before", "tight", "quoted", "first"}
Fits(p, shape) == shape \in {"bare", "bare before"} => p.name = <<>> /\ p.mail # <<>>
=============================================================================
