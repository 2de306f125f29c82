---------------------------- MODULE TracePinentry ----------------------------
EXTENDS Pinentry, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i
If(c, s) == IF c THEN {s} ELSE {}
Dom(q) == 1..Len(q)
Empty == [x \in {} |-> ""]
Error(w) == w \in {"refused", "INT"}
\* the outcomes of asking that an observation agrees with
Agree(r, o, s, m) == {a \in Ask(m, o) : (IF Error(a.got) THEN s.got = "refused" ELSE s.got = "=" \o a.got) /\ s.took = a.took}
Why(o, s, m) ==
  IF s.got = "never" THEN "asks for ever"
  ELSE IF Cached(m, o) THEN (IF s.took > 0 THEN "prompts for what is remembered" ELSE "does not give what is remembered")
  ELSE IF o.noask THEN (IF s.took > 0 THEN "prompts although told not to" ELSE "gives what was not remembered")
  ELSE IF s.took = 0 THEN (IF s.got = "refused" THEN "does not ask" ELSE "gives what was not remembered")
  ELSE IF s.got = "refused" THEN "refuses what was typed"
  ELSE "gives what was not typed every time"
RECURSIVE Walk(_, _, _)
\* the sets of what may be remembered, along a history
Walk(r, j, ms) ==
  IF j > Len(r.ops) THEN {}
  ELSE LET o == r.ops[j]  s == r.seen[j] IN
       IF o.do = "clear"
       THEN If(s.got # "ok", "cannot clear") \cup Walk(r, j + 1, {Drop(m, o.id) : m \in ms})
       ELSE LET next == UNION {{a.mem : a \in Agree(r, o, s, m)} : m \in ms} IN
            IF next = {} THEN {Why(o, s, CHOOSE m \in ms : TRUE)} ELSE Walk(r, j + 1, next)
\* a request as the agent got it: other commands than the one wanted do no harm if they do nothing
Harmless(l) == Word(l) \in {<<66, 89, 69>>, <<78, 79, 80>>, <<79, 80, 84, 73, 79, 78>>, <<82, 69, 83, 69, 84>>}
Commands(r) == SelectSeq(r.sent, LAMBDA l : l = <<>> \/ ~Harmless(l))
Sent(r) == LET c == Commands(r) IN
  IF Len(c) # 1 THEN {"not one command"}
  ELSE If(~r.whole, "command without an end")
       \cup If(\E j \in Dom(c[1]) : c[1][j] \in {0, 10, 13}, "command broken up")
       \cup (IF r.kind = "clear" THEN If(~RightClear(c[1], r.q.id), "asks to clear something else")
             ELSE If(~RightRequest(c[1], r.q), "asks for something else"))
Bad(r) ==
  CASE r.kind = "history" -> Walk(r, 1, {Empty})
    [] r.kind \in {"request", "clear"} -> If(r.res # "ok", "fails: " \o r.res) \cup Sent(r)
    [] r.kind = "answer" ->
         LET g == Answer(r.greet, <<>>)  a == Answer(r.lines, <<>>) IN
         If(r.res = "hang", "waits for ever")
         \cup (IF g.ok /\ a.ok
               THEN IF ~IsUtf8(a.data) THEN {}
                    ELSE If(r.res # "ok", "fails although successful") \cup If(r.then = "get" /\ r.res = "ok" /\ r.got # a.data, "gives something else")
               ELSE If(r.res = "ok", "no error for an answer that is no success"))
    [] OTHER -> {"fails"}
TInit == i = 1
TNext == /\ i <= Len(Trace)
         /\ LET b == Bad(Trace[i]) IN b # {} => PrintT(<<"BAD", i, b>>)
         /\ i' = i + 1
         /\ i' > Len(Trace) => PrintT(<<"DONE", Len(Trace)>>)
=============================================================================
