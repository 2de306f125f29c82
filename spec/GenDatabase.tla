---------------------------- MODULE GenDatabase ----------------------------
EXTENDS Database, SequencesExt, Json, IOUtils, TLC
Big == IOEnv.BIG = "1"
At(q, j) == q[(j % Len(q)) + 1]
B(x) == IF x THEN 1 ELSE 0
\* keyrings: kind, read-only or not, file format, contents
Contents == <<<<>>, <<"a">>, <<"a", "c">>, <<"c", "d">>, <<"e", "f", "b">>, <<"g", "a">>, <<"d", "b", "c", "a", "f">>, <<"f", "e", "d", "c", "b", "a", "g">>>>
Shapes == <<<<"p">>, <<"s">>, <<"p", "s">>, <<"s", "p">>, <<"P", "p", "s">>, <<"S", "s", "p">>, <<"p", "p", "s", "s">>, <<"P", "S", "s", "p">>, <<"s", "S", "p">>, <<"p", "P">>, <<"P">>, <<"p", "s", "P", "p">>>>
Rings(j) == LET sh == At(Shapes, j) IN
  [i \in 1..Len(sh) |-> LET c == At(Contents, j + 3 * i + (j \div 7) * i) IN
     [secret |-> sh[i] \in {"s", "S"}, readonly |-> sh[i] \in {"P", "S"}, dbm |-> ((j + i) % 7 = 0), keys |-> [m \in 1..Len(c) |-> [k |-> c[m], v |-> ((m + i + j) % 2) + 1]]]]
Reg(r, p) == [do |-> "register", ring |-> r, primary |-> p, k |-> "a", v |-> 1, secret |-> FALSE, by |-> "", text |-> FALSE, term |-> ""]
Ch(d, k, v, s) == [do |-> d, ring |-> 0, primary |-> FALSE, k |-> k, v |-> v, secret |-> s, by |-> "", text |-> FALSE, term |-> ""]
Se(b, k, t, x) == [do |-> "search", ring |-> 0, primary |-> FALSE, k |-> k, v |-> 1, secret |-> FALSE, by |-> b, text |-> t, term |-> x]
List == [Se("", "a", FALSE, "") EXCEPT !.do = "list"]
Terms == <<"alice", "ALICE", "example.org", "\\u00e9mile", "\\u00c9MILE", "emile", "\\u0434\\u0430\\u0440\\u044c\\u044f", "\\u0414\\u0410\\u0420\\u042c\\u042f", "zzz", "zola <", "(comment [x]*)", ".", "a@corp", " ", "e e", "ice son", "al", "<", "Example <alice", "x", ".*", "r\\u00f6">>
K == <<"a", "c", "d", "e", "f", "b", "g">>
Searches == SetToSeq({Se(b, k, FALSE, "") : b \in {"fp", "long", "short"}, k \in Keys} \cup {Se("", "a", TRUE, Terms[i]) : i \in 1..Len(Terms)} \cup {Se(b, k, TRUE, t) : b \in {"fp", "short"}, k \in Keys, t \in {"alice", "\\u00e9mile", "e", "Zola"}})
Changes == SetToSeq({Ch(d, k, v, s) : d \in {"add", "update", "delete"}, k \in Keys, v \in {1, 2}, s \in BOOLEAN})
\* registered in some order, the primary one early or late, some again
Regs(j, n) == LET first == [i \in 1..n |-> Reg(((i + j) % n) + 1, (j \div 5 + i) % (n + 2) = 0)] IN
              IF j % 4 = 0 THEN Append(first, Reg(((j \div 4) % n) + 1, (j \div 3) % 2 = 0)) ELSE first
\* a change each of the first keyring's contents and others
Ops(j, len) == [i \in 1..len |-> At(Changes, j * (2 * i + 1) + (j * i) \div 3 + 5 * i)]
Looks(j, len) == [i \in 1..len |-> At(Searches, 17 * j + 7 * i + (j \div 5) * i)]
Late(j, n) == IF j % 6 = 2 THEN <<Reg(((j \div 6) % n) + 1, TRUE)>> ELSE <<>>
Hist(j) == LET n == Len(At(Shapes, j)) IN
           Regs(j, n) \o Looks(j, 2) \o Ops(j, 2 + (j % 3)) \o Late(j, n) \o <<List>> \o Looks(j + 1, 2) \o Ops(j + 3, 1 + (j % 2)) \o Looks(j + 2, 4) \o <<List>>
Histories == IF Big THEN 3000 ELSE 420
\* opening files
Opens == SetToSeq([prefix : {"", "gnupg-keyring:", "gnupg-kbx:"}, file : {"missing", "empty", "keys", "dbm", "kbx"}, force : BOOLEAN, relative : BOOLEAN, secret : BOOLEAN])
\* the files in the user's directory
Defaults == SetToSeq([sec : {"missing", "empty", "keys"}, pub : {"missing", "empty", "keys"}, force : BOOLEAN, readonly : BOOLEAN, by : {"method", "shortcut"}])
O1 == Opens[1]
Scen == [j \in 1..(Histories + Len(Opens) + Len(Defaults)) |->
   IF j <= Histories
   THEN [kind |-> "history", rings |-> Rings(j), ops |-> Hist(j), open |-> O1, defaults |-> Defaults[1], n |-> j, key |-> "history " \o ToString(j)]
   ELSE IF j > Histories + Len(Opens)
   THEN LET o == Defaults[j - Histories - Len(Opens)] IN
        [kind |-> "defaults", rings |-> <<>>, ops |-> <<>>, open |-> O1, defaults |-> o, n |-> j,
         key |-> "defaults " \o o.by \o " secring " \o o.sec \o " pubring " \o o.pub \o (IF o.force THEN " force" ELSE "") \o (IF o.readonly THEN " readonly" ELSE "")]
   ELSE LET o == Opens[j - Histories] IN
        [kind |-> "open", rings |-> <<>>, ops |-> <<>>, open |-> o, defaults |-> Defaults[1], n |-> j,
         key |-> "open " \o o.prefix \o o.file \o (IF o.force THEN " force" ELSE "") \o (IF o.relative THEN " relative" ELSE "") \o (IF o.secret THEN " secret" ELSE "")]]
ASSUME ndJsonSerialize(IOEnv.GEN_OUT, Scen)
VARIABLE x
Init == x = 0
Next == UNCHANGED x
=============================================================================
