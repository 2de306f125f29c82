------------------------------ MODULE Framing ------------------------------
(***************************************************************************)
(* OpenPGP packet framing (RFC 4880, section 4): a writer that may choose  *)
(* any legal header form for each packet, and a reader that consumes the   *)
(* resulting octets.  Octet streams are sequences of atoms: <<0,b>> is one *)
(* literal octet b, <<1,n>> is a run of n body octets, so that bodies of   *)
(* millions of octets cost nothing to explore.                             *)
(***************************************************************************)
EXTENDS Naturals, Sequences, SequencesExt, FiniteSets, Functions

Lit(b) == << <<0, b>> >>
Run(n) == IF n = 0 THEN <<>> ELSE << <<1, n>> >>
DataTypes == {8, 9, 11, 18}
Pow2(k) == 2 ^ k

ASize(a) == IF a[1] = 0 THEN 1 ELSE a[2]
RECURSIVE Size(_)
Size(s) == IF s = <<>> THEN 0 ELSE ASize(Head(s)) + Size(Tail(s))

\* the first k octets of s (or all of them when s is shorter)
RECURSIVE Take(_, _)
Take(s, k) ==
  IF s = <<>> \/ k = 0 THEN <<>>
  ELSE IF ASize(Head(s)) <= k
       THEN <<Head(s)>> \o Take(Tail(s), k - ASize(Head(s)))
       ELSE Run(k)
RECURSIVE Drop(_, _)
Drop(s, k) ==
  IF s = <<>> \/ k = 0 THEN s
  ELSE IF ASize(Head(s)) <= k THEN Drop(Tail(s), k - ASize(Head(s)))
       ELSE Run(Head(s)[2] - k) \o Tail(s)

(***************************************************************************)
(* The writer.  A form says how one packet is framed.                      *)
(***************************************************************************)
PartSum(parts) == FoldLeft(LAMBDA a, e : a + Pow2(e), 0, parts)

\* forms: [fmt |-> "new", parts |-> <<exponents>>, last |-> 1|2|5]
\*        [fmt |-> "old", parts |-> <<>>, last |-> 0|1|2|4]   (0: to the end)
Legal(f, type, len, minPart) ==
  IF f.fmt = "new"
  THEN LET rem == len - PartSum(f.parts) IN
       /\ PartSum(f.parts) <= len
       /\ f.parts # <<>> => type \in DataTypes /\ f.parts[1] >= minPart
       /\ f.last = 1 => rem < 192
       /\ f.last = 2 => rem >= 192 /\ rem < 8384
  ELSE /\ type < 16
       /\ f.last = 1 => len < 256
       /\ f.last = 2 => len < 65536

Be(n, w) == [i \in 1..w |-> <<0, (n \div (256 ^ (w - i))) % 256>>]
NewLen(rem, w) ==
  CASE w = 1 -> Lit(rem)
    [] w = 2 -> Lit(192 + ((rem - 192) \div 256)) \o Lit((rem - 192) % 256)
    [] w = 5 -> Lit(255) \o Be(rem, 4)
RECURSIVE NewBody(_, _, _)
NewBody(parts, len, last) ==
  IF parts = <<>> THEN NewLen(len, last) \o Run(len)
  ELSE Lit(224 + Head(parts)) \o Run(Pow2(Head(parts)))
       \o NewBody(Tail(parts), len - Pow2(Head(parts)), last)
OldLt(last) == CASE last = 1 -> 0 [] last = 2 -> 1 [] last = 4 -> 2
                 [] last = 0 -> 3
Frame(f, type, len) ==
  IF f.fmt = "new"
  THEN Lit(192 + type) \o NewBody(f.parts, len, f.last)
  ELSE Lit(128 + 4 * type + OldLt(f.last))
       \o (IF f.last = 0 THEN <<>> ELSE Be(len, f.last)) \o Run(len)

(***************************************************************************)
(* The reader, one action per header octet group.                          *)
(***************************************************************************)
R0(s) == [phase |-> "tag", s |-> s, fmt |-> "", type |-> 0, len |-> 0,
          need |-> 0, more |-> FALSE, lt |-> 0, out |-> <<>>]
Fail(r) == [r EXCEPT !.phase = "err"]
IsLit(s) == s # <<>> /\ Head(s)[1] = 0
\* value of the first w octets; body octets where a header is expected are
\* malformed for the purposes of the generated streams
LitVal(s, w) == FoldLeft(LAMBDA a, i : a * 256 + s[i][2], 0,
                         [i \in 1..w |-> i])
HasLits(s, w) == Len(s) >= w /\ \A i \in 1..w : s[i][1] = 0

ReadTag(r) ==
  IF r.s = <<>> THEN [r EXCEPT !.phase = "done"]
  ELSE IF ~IsLit(r.s) \/ Head(r.s)[2] < 128 THEN Fail(r)
  ELSE LET b == Head(r.s)[2] IN
       IF b >= 192
       THEN [r EXCEPT !.phase = "len", !.s = Tail(@), !.fmt = "new",
                      !.type = b - 192, !.len = 0]
       ELSE [r EXCEPT !.phase = "len", !.s = Tail(@), !.fmt = "old",
                      !.type = (b - 128) \div 4, !.lt = b % 4, !.len = 0]

Need(r, skip, n, more) ==
  [r EXCEPT !.phase = "body", !.s = Drop(@, skip), !.need = n, !.more = more]
ReadNewLen(r) ==
  IF ~IsLit(r.s) THEN Fail(r)
  ELSE LET b == Head(r.s)[2] IN
       CASE b < 192 -> Need(r, 1, b, FALSE)
         [] b >= 192 /\ b < 224 ->
              IF HasLits(r.s, 2)
              THEN Need(r, 2, (b - 192) * 256 + r.s[2][2] + 192, FALSE)
              ELSE Fail(r)
         [] b = 255 ->
              IF HasLits(r.s, 5)
              THEN Need(r, 5, LitVal(Tail(r.s), 4), FALSE)
              ELSE Fail(r)
         [] OTHER -> Need(r, 1, Pow2(b - 224), TRUE)
ReadOldLen(r) ==
  LET w == CASE r.lt = 0 -> 1 [] r.lt = 1 -> 2 [] r.lt = 2 -> 4
             [] r.lt = 3 -> 0 IN
  IF w = 0 THEN Need(r, 0, Size(r.s), FALSE)
  ELSE IF HasLits(r.s, w) THEN Need(r, w, LitVal(r.s, w), FALSE)
  ELSE Fail(r)

\* strict: a body shorter than its declared length is an error
ReadBody(r, strict) ==
  LET have == Size(r.s)
      got  == IF have < r.need THEN have ELSE r.need IN
  IF have < r.need /\ (strict \/ r.more) THEN Fail(r)
  ELSE IF r.more
       THEN [r EXCEPT !.phase = "len", !.s = Drop(@, got), !.len = @ + got]
       ELSE [r EXCEPT !.phase = "tag", !.s = Drop(@, got),
                      !.out = Append(@, <<r.fmt, r.type, r.len + got>>)]
ReadStep(r, strict) ==
  CASE r.phase = "tag" -> ReadTag(r)
    [] r.phase = "len" -> IF r.fmt = "new" THEN ReadNewLen(r)
                          ELSE ReadOldLen(r)
    [] r.phase = "body" -> ReadBody(r, strict)
RECURSIVE ReadToEnd(_)
ReadToEnd(r) == IF r.phase \in {"done", "err"} THEN r
                ELSE ReadToEnd(ReadStep(r, TRUE))
ReadAll(s) == ReadToEnd(R0(s))
=============================================================================
