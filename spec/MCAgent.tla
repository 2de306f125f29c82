------------------------------- MODULE MCAgent -------------------------------
(***************************************************************************)
(* The line protocol with the agent, as a client that takes one line after *)
(* the other, against what an answer means; and the encoding of requests.  *)
(***************************************************************************)
EXTENDS Pinentry, TLC
CONSTANTS Design, N
Ok == <<79, 75>>
Lines == {Ok, <<79, 75, 32, 120>>, <<79, 75, 120>>, <<69, 82, 82, 32, 49>>, <<68, 32, 112>>, <<68, 32, 37, 50, 53>>, <<68, 32, 195>>, <<83, 32, 120>>, <<35>>, <<73, 78, 81>>, <<>>}
VARIABLES lines, k, data, state
vars == <<lines, k, data, state>>
Seqs == UNION {[1..j -> Lines] : j \in 0..N}
Init == lines \in Seqs /\ k = 1 /\ data = <<>> /\ state = "reads"
Prefix(l, w) == Len(l) >= Len(w) /\ SubSeq(l, 1, Len(w)) = w
Take ==
  /\ state = "reads"
  /\ IF k > Len(lines) THEN /\ state' = IF Design = "eof" THEN "ok" ELSE "error"
                            /\ UNCHANGED <<k, data>>
     ELSE LET l == lines[k]  w == IF l = <<>> THEN <<>> ELSE Word(l) IN
          /\ k' = k + 1
          /\ IF w = Ok \/ (Design = "prefix" /\ Prefix(l, Ok)) THEN state' = "ok" /\ UNCHANGED data
             ELSE IF Prefix(l, <<69, 82, 82>>) THEN state' = "error" /\ UNCHANGED data
             ELSE IF w = <<68>>
                  THEN /\ data' = IF Design = "first" /\ data # <<>> THEN data
                                  ELSE data \o (IF Design = "raw" THEN SubSeq(l, 3, Len(l)) ELSE Decode(SubSeq(l, 3, Len(l)), FALSE))
                       /\ UNCHANGED state
             ELSE IF w = <<83>> \/ Prefix(l, <<35>>) \/ Design = "lenient" THEN UNCHANGED <<state, data>>
             ELSE state' = "error" /\ UNCHANGED data
  /\ UNCHANGED lines
Spec == Init /\ [][Take]_vars
Meant == LET a == Answer(lines, <<>>) IN
         (state = "ok" => a.ok /\ a.data = data) /\ (state = "error" => ~a.ok)
\* requests: any text is one word, and comes out as it was
Chars == {97, 37, 43, 32, 10, 13, 45, 88, 233, 8364, 128512}
Texts == UNION {[1..j -> Chars] : j \in 0..3}
Keep == {97, 88} \cup (CASE Design = "spaces" -> {32} [] Design = "plus" -> {43} [] Design = "lines" -> {10} [] Design = "percent" -> {37, 50, 53} [] Design = "options" -> {45} [] OTHER -> {})
Written(t) == IF t = <<>> THEN <<88>> ELSE Encode(Utf8(t), Keep)
OneWord(t) == 32 \notin Rng(Written(t)) /\ 10 \notin Rng(Written(t))
Intact(t) == Arg(Written(t)) = Text(t)
Encoding == k > 1 \/ lines # <<>> \/ \A t \in Texts \ {<<88>>} : OneWord(t) /\ Intact(t) /\ ~IsOption(Written(t))
=============================================================================
