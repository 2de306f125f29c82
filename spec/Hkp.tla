-------------------------------- MODULE Hkp --------------------------------
(***************************************************************************)
(* The HTTP Keyserver Protocol (draft-shaw-openpgp-hkp-00): the machine    *)
(* readable index, and what is requested of a server.                      *)
(*                                                                         *)
(* An answer to a search is a sequence of keys [id, alg, bits, created,    *)
(* expires, flags, uids], an identity [text, created, expires, flags];     *)
(* numbers are sequences of digits, empty when they are not told.          *)
(***************************************************************************)
EXTENDS Percent, FiniteSets
Colon == 58
Lower(c) == IF c \in 65..90 THEN c + 32 ELSE c
LowerAll(s) == [j \in 1..Len(s) |-> Lower(s[j])]
PUB == <<112, 117, 98>>
UID == <<117, 105, 100>>
Letters == [r |-> 114, d |-> 100, e |-> 101]
FlagNames == {"r", "d", "e"}
FlagsOf(f) == {n \in FlagNames : \E j \in 1..Len(f) : Lower(f[j]) = Letters[n]}
\* fields left off at the end are empty
Field(fs, k) == IF k <= Len(fs) THEN fs[k] ELSE <<>>
RECURSIVE Strip(_)
\* a number without leading zeros
Strip(d) == IF Len(d) > 1 /\ d[1] = 48 THEN Strip(Tail(d)) ELSE d
RECURSIVE LinesOf(_)
\* ends of lines are LF, CR LF or CR
LinesOf(s) ==
  LET k == {j \in 1..Len(s) : s[j] \in {10, 13}} IN
  IF k = {} THEN IF s = <<>> THEN <<>> ELSE <<s>>
  ELSE LET j == CHOOSE j \in k : \A m \in k : j <= m
           e == IF s[j] = 13 /\ j < Len(s) /\ s[j + 1] = 10 THEN j + 1 ELSE j
       IN <<SubSeq(s, 1, j - 1)>> \o LinesOf(SubSeq(s, e + 1, Len(s)))
\* only in text is case of importance
Kind(fs) == LowerAll(fs[1])
Key(fs) == [id |-> LowerAll(Field(fs, 2)), alg |-> Strip(Field(fs, 3)), bits |-> Strip(Field(fs, 4)), created |-> Strip(Field(fs, 5)), expires |-> Strip(Field(fs, 6)), flags |-> FlagsOf(Field(fs, 7)), uids |-> <<>>]
Uid(fs) == [text |-> Decode(Field(fs, 2), FALSE), created |-> Strip(Field(fs, 3)), expires |-> Strip(Field(fs, 4)), flags |-> FlagsOf(Field(fs, 5))]
RECURSIVE Read(_, _)
Read(lines, out) ==
  IF lines = <<>> THEN out
  ELSE LET fs == SplitAt(lines[1], Colon) IN
       IF Kind(fs) = PUB THEN Read(Tail(lines), Append(out, Key(fs)))
       ELSE IF Kind(fs) = UID /\ out # <<>> THEN Read(Tail(lines), [out EXCEPT ![Len(out)].uids = Append(@, Uid(fs))])
       ELSE Read(Tail(lines), out)
Index(text) == Read(LinesOf(text), <<>>)
\* ------------------------------------------------------------- writing one
RECURSIVE Joined(_, _)
Joined(ss, c) == IF ss = <<>> THEN <<>> ELSE IF Len(ss) = 1 THEN ss[1] ELSE ss[1] \o <<c>> \o Joined(Tail(ss), c)
RECURSIVE Trim(_)
Trim(fs) == IF Len(fs) > 2 /\ fs[Len(fs)] = <<>> THEN Trim(SubSeq(fs, 1, Len(fs) - 1)) ELSE fs
Upper(s) == [j \in 1..Len(s) |-> IF s[j] \in 97..122 THEN s[j] - 32 ELSE s[j]]
RECURSIVE Hexed(_, _)
Hexed(s, st) == IF s = <<>> THEN <<>>
  ELSE (IF st.all \/ s[1] \notin (32..126) \ {37, Colon}
        THEN LET e == <<37, HexDigit(s[1] \div 16), HexDigit(s[1] % 16)>> IN IF st.small THEN LowerAll(e) ELSE e
        ELSE <<s[1]>>) \o Hexed(Tail(s), st)
\* flags in any order
FlagSeq(f, st) == LET o == IF st.back THEN <<"e", "d", "r">> ELSE <<"r", "d", "e">>
                      q == SelectSeq(o, LAMBDA n : n \in f)
                  IN [j \in 1..Len(q) |-> Letters[q[j]]]
Line(fs, st) == LET w == IF st.trim THEN Trim(fs) ELSE fs IN Joined(w, Colon)
Case(s, st) == IF st.upper THEN Upper(s) ELSE s
UidLine(u, st) == Line(<<Case(UID, st), Hexed(Utf8(u.text), st), u.created, u.expires, Case(FlagSeq(u.flags, st), st)>>, st)
KeyLines(k, st) == <<Line(<<Case(PUB, st), Case(k.id, st), k.alg, k.bits, k.created, k.expires, Case(FlagSeq(k.flags, st), st)>>, st)>>
                   \o (IF st.odd THEN <<<<117, 97, 116, 58, 58, 49>>, <<>>, <<112, 117, 98, 108, 105, 99, 58, 120>>>> ELSE <<>>)
                   \o [j \in 1..Len(k.uids) |-> UidLine(k.uids[j], st)]
                   \o (IF st.odd THEN <<<<117, 105, 100, 115, 58, 120>>, <<115, 105, 103>>>> ELSE <<>>)
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE ss[1] \o Flat(Tail(ss))
Info(n, st) == IF st.info = "none" THEN <<>> ELSE <<Case(<<105, 110, 102, 111, 58>>, st) \o (IF st.info = "full" THEN <<49, 58, 48 + n>> ELSE IF st.info = "short" THEN <<49>> ELSE <<>>)>>
RECURSIVE Ended(_, _, _)
Ended(ls, e, last) == IF ls = <<>> THEN <<>> ELSE ls[1] \o (IF Len(ls) = 1 /\ ~last THEN <<>> ELSE e) \o Ended(Tail(ls), e, last)
Write(ks, st) == Ended(Info(Len(ks), st) \o Flat([j \in 1..Len(ks) |-> KeyLines(ks[j], st)]), IF st.crlf THEN <<13, 10>> ELSE <<10>>, st.last)
\* what it says, without regard to how it is written
Same(k) == [k EXCEPT !.id = LowerAll(@), !.uids = [j \in 1..Len(k.uids) |-> [k.uids[j] EXCEPT !.text = Utf8(@)]]]
Sames(ks) == [j \in 1..Len(ks) |-> Same(ks[j])]
\* ---------------------------------------------------------------- requests
Default(scheme) == CASE scheme = "hkp" -> 11371 [] scheme = "http" -> 80 [] OTHER -> 443
Secure(scheme) == scheme \in {"hkps", "https"}
Where(b, what) == [scheme |-> IF Secure(b.scheme) THEN "https" ELSE "http", host |-> b.host, port |-> IF b.port = 0 THEN Default(b.scheme) ELSE b.port, path |-> b.path \o what]
\* the values of a name in encoded form data
Pairs(q) == LET ps == SplitAt(q, 38) IN [j \in 1..Len(ps) |-> LET p == SplitAt(ps[j], 61) IN <<Decode(p[1], TRUE), IF Len(p) > 1 THEN Decode(Joined(Tail(p), 61), TRUE) ELSE <<>>>>]
Values(q, name) == LET ps == Pairs(q) IN {ps[j][2] : j \in {j \in 1..Len(ps) : ps[j][1] = name}}
Has(q, name, v) == Values(q, name) = {v}
OP == <<111, 112>>
SEARCH == <<115, 101, 97, 114, 99, 104>>
OPTIONS == <<111, 112, 116, 105, 111, 110, 115>>
INDEX == <<105, 110, 100, 101, 120>>
GET == <<103, 101, 116>>
MR == <<109, 114>>
NM == <<110, 109>>
HasOption(q, o) == \E v \in Values(q, OPTIONS) : \E j \in 1..Len(SplitAt(v, 44)) : SplitAt(v, 44)[j] = o
AsksIndex(q, terms) == Has(q, OP, INDEX) /\ Has(q, SEARCH, Utf8(terms)) /\ HasOption(q, MR)
AsksKey(q, id) == /\ Has(q, OP, GET) /\ HasOption(q, MR)
                  /\ Cardinality(Values(q, SEARCH)) = 1 /\ \A v \in Values(q, SEARCH) : LowerAll(v) = <<48, 120>> \o LowerAll(id)
=============================================================================
