------------------------------- MODULE MCHkp -------------------------------
(***************************************************************************)
(* A client that searches, fetches what it found and submits, with a       *)
(* server that has some keys and may answer anything.                      *)
(***************************************************************************)
EXTENDS Hkp, TLC
CONSTANTS Design
\* ids of a shape: the last figure is the short ID
Keys == {<<49, 97>>, <<50, 97>>, <<50, 98>>}
U(t, c, f) == [text |-> t, created |-> c, expires |-> <<>>, flags |-> f]
Texts == {<<97>>, <<58, 37>>, <<233, 32>>, <<>>, <<43, 112, 117, 98, 58>>}
Uids == {U(t, c, f) : t \in Texts, c \in {<<>>, <<53>>}, f \in {{}, {"r"}, {"e", "d"}}}
KeysOf(us) == {[id |-> i, alg |-> a, bits |-> <<>>, created |-> <<>>, expires |-> e, flags |-> f, uids |-> u] : i \in {<<49, 97>>}, a \in {<<>>, <<49, 55>>}, e \in {<<>>, <<57>>}, f \in {{}, {"d"}}, u \in us}
Styles == {[all |-> a, small |-> s, back |-> b, trim |-> t, upper |-> u, odd |-> o, info |-> i, crlf |-> c, last |-> l] :
           a \in BOOLEAN, s \in BOOLEAN, b \in {FALSE}, t \in BOOLEAN, u \in BOOLEAN, o \in BOOLEAN, i \in {"none", "full", "short", "bare"}, c \in BOOLEAN, l \in {TRUE}}
\* reading with a mistake
RECURSIVE Wrong(_, _, _)
IsKind(l, fs, k) == IF Design = "prefix" THEN Len(l) >= 3 /\ LowerAll(SubSeq(l, 1, 3)) = k ELSE IF Design = "case" THEN fs[1] = k ELSE Kind(fs) = k
Wrong(lines, out, left) ==
  IF lines = <<>> THEN IF Design = "last" /\ out # <<>> THEN SubSeq(out, 1, Len(out) - 1) ELSE out
  ELSE LET l == IF Design = "unescape" THEN Decode(lines[1], FALSE) ELSE lines[1]
           fs == SplitAt(l, Colon) IN
       IF IsKind(l, fs, PUB) THEN Wrong(Tail(lines), Append(out, IF Design = "carry" /\ out # <<>> THEN [Key(fs) EXCEPT !.uids = out[Len(out)].uids] ELSE Key(fs)), left)
       ELSE IF IsKind(l, fs, UID) /\ out # <<>>
            THEN LET u == IF Design = "plus" THEN [Uid(fs) EXCEPT !.text = Decode(Field(fs, 2), TRUE)] ELSE IF Design = "keyflags" THEN [Uid(fs) EXCEPT !.flags = out[Len(out)].flags] ELSE Uid(fs) IN
                 Wrong(Tail(lines), [out EXCEPT ![Len(out)].uids = Append(@, u)], left)
       ELSE Wrong(Tail(lines), out, left)
Reader(text) == IF Design = "good" THEN Index(text) ELSE Wrong(LinesOf(text), <<>>, 0)
VARIABLES answer, style, phase, want, given, got
vars == <<answer, style, phase, want, given, got>>
One == {<<k>> : k \in KeysOf({<<>>} \cup {<<u>> : u \in Uids})}
Two == {<<k, [k EXCEPT !.id = <<50, 98>>, !.uids = v]>> : k \in KeysOf({<<>>, <<U(<<97>>, <<>>, {})>>}), v \in {<<>>, <<U(<<233>>, <<>>, {"r"})>>}}
\* one step reads an answer; the others fetch a key
Init == /\ answer \in {<<>>} \cup One \cup Two /\ style \in Styles /\ phase = "read" /\ want = <<>> /\ given = <<>> /\ got = <<0>>
Ids == Keys \cup {<<97>>, <<98>>}
Names(id, k) == IF Len(id) = 1 THEN k[2] = id[1] ELSE k = id
Fetch == /\ phase = "read" /\ answer = <<>> /\ style = CHOOSE s \in Styles : TRUE
         /\ want' \in Ids /\ given' \in {<<>>} \cup {<<a>> : a \in Keys} \cup {<<a, b>> : a \in Keys, b \in Keys} /\ phase' = "given" /\ UNCHANGED <<answer, style, got>>
Take == /\ phase = "given" /\ phase' = "done"
        /\ LET fit == {j \in 1..Len(given) : Design = "unchecked" \/ Names(want, given[j])} IN
           got' = IF fit = {} \/ (Design = "first" /\ 1 \notin fit) THEN <<>>
                  ELSE given[CHOOSE j \in fit : \A m \in fit : j <= m]
        /\ UNCHANGED <<answer, style, want, given>>
Next == Fetch \/ Take
Spec == Init /\ [][Next]_vars
Exact == phase = "read" => Reader(Write(answer, style)) = Sames(answer)
Fetched == phase = "done" =>
             IF \E j \in 1..Len(given) : Names(want, given[j]) THEN got # <<>> /\ Names(want, got) ELSE got = <<>>
=============================================================================
