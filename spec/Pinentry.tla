------------------------------ MODULE Pinentry ------------------------------
(***************************************************************************)
(* Asking for a passphrase.                                                *)
(*                                                                         *)
(* What is remembered is a function from cache entries to passphrases.  A  *)
(* prompt reads the passphrase and then every repetition of it, and starts *)
(* again when one differs.  An agent is asked in one line (Assuan), and    *)
(* answers in lines up to OK or ERR.                                       *)
(***************************************************************************)
EXTENDS Percent, FiniteSets
Rng(q) == {q[j] : j \in 1..Len(q)}
Last(q) == q[Len(q)]
\* ---------------------------------------------------------------- prompting
\* a user types these in turn, and the last of them for ever; "INT" interrupts
Typed(script, k) == IF k <= Len(script) THEN script[k] ELSE Last(script)
\* the entries a round from the k-th entry on takes, and whether they agree:
\* a difference may be complained about at once or after the last repetition
RECURSIVE Round(_, _, _, _, _)
Round(script, k, first, left, okay) ==
  IF left = 0 THEN [ok |-> okay, next |-> k, int |-> FALSE]
  ELSE IF Typed(script, k) = "INT" THEN [ok |-> FALSE, next |-> k + 1, int |-> TRUE]
  ELSE Round(script, k + 1, first, left - 1, okay /\ Typed(script, k) = first)
RECURSIVE Early(_, _, _, _)
Early(script, k, first, left) ==
  IF left = 0 THEN [ok |-> TRUE, next |-> k, int |-> FALSE]
  ELSE IF Typed(script, k) = "INT" THEN [ok |-> FALSE, next |-> k + 1, int |-> TRUE]
  ELSE IF Typed(script, k) = first THEN Early(script, k + 1, first, left - 1)
  ELSE [ok |-> FALSE, next |-> k + 1, int |-> FALSE]
RECURSIVE Prompt(_, _, _, _)
\* the passphrase obtained and how many entries that took
Prompt(script, k, rep, early) ==
  LET f == Typed(script, k)
      r == IF early THEN Early(script, k + 1, f, rep) ELSE Round(script, k + 1, f, rep, TRUE)
  IN IF f = "INT" THEN [got |-> "INT", took |-> k]
     ELSE IF r.int THEN [got |-> "INT", took |-> r.next - 1]
     ELSE IF r.ok THEN [got |-> f, took |-> r.next - 1]
     ELSE Prompt(script, r.next, rep, early)
Outcomes(script, rep) == {Prompt(script, 1, rep, e) : e \in BOOLEAN}
\* ------------------------------------------------------------------ caching
NoEntry(id) == id \in {"", "X"}
Cached(mem, o) == o.use /\ ~NoEntry(o.id) /\ o.id \in DOMAIN mem
Store(mem, id, p) == [x \in DOMAIN mem \cup {id} |-> IF x = id THEN p ELSE mem[x]]
Drop(mem, id) == [x \in DOMAIN mem \ {id} |-> mem[x]]
\* what asking may do: the passphrase or a refusal, the entries typed, and what is remembered then
Ask(mem, o) ==
  IF Cached(mem, o) THEN {[got |-> mem[o.id], took |-> 0, mem |-> mem]}
  ELSE IF o.noask THEN {[got |-> "refused", took |-> 0, mem |-> mem]}
  ELSE {[got |-> r.got, took |-> r.took,
         mem |-> IF r.got # "INT" /\ o.use /\ ~NoEntry(o.id) THEN Store(mem, o.id, r.got) ELSE mem] : r \in Outcomes(o.script, o.rep)}
\* -------------------------------------------------------------- the agent
\* the words of a request line
Str(w) == CASE w = "GET_PASSPHRASE" -> <<71, 69, 84, 95, 80, 65, 83, 83, 80, 72, 82, 65, 83, 69>>
            [] w = "CLEAR_PASSPHRASE" -> <<67, 76, 69, 65, 82, 95, 80, 65, 83, 83, 80, 72, 82, 65, 83, 69>>
            [] w = "--data" -> <<45, 45, 100, 97, 116, 97>>
            [] w = "--no-ask" -> <<45, 45, 110, 111, 45, 97, 115, 107>>
            [] w = "--qualitybar" -> <<45, 45, 113, 117, 97, 108, 105, 116, 121, 98, 97, 114>>
            [] w = "--repeat" -> <<45, 45, 114, 101, 112, 101, 97, 116>>
            [] w = "OK" -> <<79, 75>>
            [] w = "ERR" -> <<69, 82, 82>>
            [] w = "D" -> <<68>>
            [] w = "S" -> <<83>>
            [] w = "X" -> <<88>>
IsOption(w) == Len(w) >= 2 /\ SubSeq(w, 1, 2) = <<45, 45>>
\* none is written X
Arg(w) == IF w = Str("X") THEN <<>> ELSE Decode(w, TRUE)
Digits(n) == IF n < 10 THEN <<48 + n>> ELSE <<48 + n \div 10, 48 + (n % 10)>>
Repeat(rep) == IF rep = 0 THEN {} ELSE {Str("--repeat") \o <<61>> \o Digits(rep)} \cup (IF rep = 1 THEN {Str("--repeat")} ELSE {})
RECURSIVE Skip(_)
Skip(ws) == IF ws # <<>> /\ IsOption(ws[1]) THEN Skip(Tail(ws)) ELSE ws
RECURSIVE Opts(_)
Opts(ws) == IF ws # <<>> /\ IsOption(ws[1]) THEN {ws[1]} \cup Opts(Tail(ws)) ELSE {}
\* what the agent is told by a line (without its end)
Told(line) ==
  LET ws == SplitAt(line, 32)  args == Skip(Tail(ws)) IN
  [cmd |-> ws[1], opts |-> Opts(Tail(ws)), args |-> [j \in 1..Len(args) |-> Arg(args[j])]]
Text(t) == IF t = <<88>> THEN <<>> ELSE Utf8(t)
\* what is asked for: cache entry, error, prompt and description in this order
RightRequest(line, q) ==
  LET t == Told(line)  must == {Str("--data")} \cup (IF q.noask THEN {Str("--no-ask")} ELSE {}) \cup (IF q.bar THEN {Str("--qualitybar")} ELSE {}) IN
  /\ t.cmd = Str("GET_PASSPHRASE")
  /\ \E r \in (IF q.rep = 0 THEN {{}} ELSE {{x} : x \in Repeat(q.rep)}) : t.opts = must \cup r
  /\ t.args = <<IF q.use THEN Text(q.id) ELSE <<>>, Text(q.error), Text(q.prompt), Text(q.desc)>>
RightClear(line, id) == LET t == Told(line) IN t.cmd = Str("CLEAR_PASSPHRASE") /\ t.args = <<Text(id)>>
Word(line) == SplitAt(line, 32)[1]
\* what an answer means: its data when it is a success
RECURSIVE Answer(_, _)
Answer(lines, data) ==
  IF lines = <<>> THEN [ok |-> FALSE, data |-> <<>>]
  ELSE LET l == lines[1]  w == Word(l)  rest == SubSeq(l, Len(w) + 2, Len(l)) IN
       IF w = Str("OK") THEN [ok |-> TRUE, data |-> data]
       ELSE IF w = Str("D") THEN Answer(Tail(lines), data \o Decode(rest, FALSE))
       ELSE IF w = Str("S") \/ (l # <<>> /\ l[1] = 35) THEN Answer(Tail(lines), data)
       ELSE [ok |-> FALSE, data |-> <<>>]
=============================================================================
