--------------------------- MODULE GenKeyringLock ---------------------------
EXTENDS KeyringLock, SequencesExt, Json, IOUtils, TLC
Big == IOEnv.BIG = "1"
At(q, j) == q[(j % Len(q)) + 1]
\* (threads run as they like, several times)
\* programs: a/t acquire without/with a time limit, A/R the same through another
\* object (with a limit), r release, h stay for a while; L/U lock and unlock the
\* keyring, o add a key of one's own, x add a key that is there
LockProgs == {"ahr", "thr", "aharhr", "ahrahr", "rahr", "thrthr"}
Odd == {"ah", "ahAhRr", "atrhr", "rthrr", "aatrrhr"}
RingProgs == {"o", "x", "LohU", "LoxhU", "xo"}
Run(w, n) == [w |-> w, do |-> "run", n |-> n]
Kill(w) == [w |-> w, do |-> "kill", n |-> 0]
Ks == IF Big THEN 0..24 ELSE {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 14, 16}
\* one interrupts the other
S2(k) == {<<Run(1, k), Run(2, 99), Run(1, 99), Run(2, 3), Run(1, 4)>>,
          <<Run(1, k), Run(2, 99), Run(1, 2), Kill(2), Run(1, 5)>>,
          <<Run(1, k), Kill(1), Run(2, 99)>>,
          <<Run(1, 99), Run(1, 1 + k \div 3), Run(2, k), Kill(1), Run(2, 99)>>,
          <<Run(1, 99), Kill(1), Run(2, k), Run(3, 99), Run(2, 99), Run(3, 2), Run(2, 99)>>,
          <<Run(1, 99), Run(2, k), Run(1, 1 + k \div 2), Run(2, 7), Run(1, 3)>>}
\* there is a lock already: of a dead process, of a living one, of another host or user, of oneself before
Two == {<<p, q>> : p \in LockProgs, q \in LockProgs} \cup {<<p, "ahr">> : p \in Odd}
Pairs == SetToSeq(Two)
Rings == SetToSeq({<<p, q>> : p \in RingProgs, q \in RingProgs})
Three(j) == <<Run(1 + (j % 3), j % 17), Run(1 + ((j \div 3) % 3), (j \div 7) % 13), Run(1 + ((j \div 11) % 3), 99), Run(1 + ((j \div 5) % 3), (j \div 13) % 19)>>
            \o (IF j % 4 = 1 THEN <<Kill(1 + ((j \div 2) % 3))>> ELSE <<>>)
            \o <<Run(1 + ((j \div 17) % 3), 99), Run(1 + ((j \div 19) % 3), 3), Run(1 + ((j \div 23) % 3), 9)>>
Schedules == UNION {S2(k) : k \in Ks}
Sch == SetToSeq(Schedules)
P(kind, progs, sched, left) == [kind |-> kind, progs |-> progs, sched |-> sched, left |-> left]
Some(S, n, m) == LET q == SetToSeq(S) IN {q[j] : j \in {j \in 1..Len(q) : j % n = m}}
Whats == {"add", "add again", "update", "update missing", "delete", "delete missing", "add odd", "update odd", "keys", "values", "some values", "some items", "contains", "get", "get missing", "get odd", "open", "make"}
Hows == {"normal", "away", "garbage", "closed"}
Ops == UNION {LET o == h \o ": " \o w IN {<<o>>, <<"L", o, "U">>, <<"L", "L", o, "U", o, "U", o>>} : h \in Hows, w \in Whats}
\* one process forks another (F), which inherits its lock (z, r) and makes one
\* of its own (Z, R; another thread of the first is 3), forgets the former (g), and ends orderly (e) or not (x)
Before == {<<>>, <<"1z">>, <<"1z", "1z">>, <<"1z", "1r">>, <<"1r">>}
Acts == {"1z", "1r", "2z", "2r", "2Z", "2R", "2g", "3z", "3r"}
Tails == {<<>>, <<"2e">>, <<"2e", "1z">>, <<"2x">>, <<"2x", "1z", "1r">>}
Seqs(n) == UNION {[1..m -> Acts] : m \in 0..n}
Inner(q) == \A j \in 1..Len(q) : q[j] = "2g" => \A m \in (j + 1)..Len(q) : q[m] \notin {"2z", "2r", "2g"}
Forks == {b \o <<"F">> \o q \o t : b \in Before, q \in {q \in Seqs(IF Big THEN 3 ELSE 2) : Inner(q)}, t \in Tails}
         \cup {<<a, "F", b, c>> \o q \o <<d, "1Z", "1r", "3z", "3R", "1z", "3r", "1R">> : a \in {"1z", "1Z", "3z", "3Z"}, b \in {"2z", "2Z"}, c \in {"1z", "1Z", "3z", "3Z"}, q \in {<<>>, <<"1r">>, <<"3r">>, <<"1R">>, <<"2R">>}, d \in {"2r", "2e"}}
         \cup {<<"F", b, c, d, e, f>> : b \in {"2z", "2Z"}, c \in {"1z", "3z", "1Z", "3Z"}, d \in {"2r", "2R", "2e"}, e \in {"1z", "3z", "3Z", "1Z"}, f \in {"3z", "1z", "3r", "1r"}}
         \* waiting is interrupted (i)
         \cup {<<"F">> \o a \o <<"1i">> \o b \o <<c, "1r", "3r", "1z", "3R">> : a \in {<<>>, <<"2z">>, <<"2Z", "1Z">>, <<"3z">>, <<"3Z", "2z">>}, b \in {<<>>, <<"2r">>, <<"2R">>, <<"2e">>, <<"3r">>}, c \in {"3z", "3Z", "1z"}}
         \cup {<<"1z", "F", a, "1r">> \o q \o <<"2e", "1z", "1r">> : a \in Acts \ {"2g"}, q \in {q \in Seqs(2) : Inner(q)}}
Cases ==
  \* the basic ones with every schedule
  {P("lock", <<"ahr", "ahr", "ahr">>, s, l) : s \in Schedules, l \in {"", "dead"}}
  \cup {P("lock", <<"ahr", "thr", "ahr">>, s, "self") : s \in Some(Schedules, 3, 1)}
  \cup {P("lock", At(<<<<"thr", "thr">>, <<"thr">>, <<"thrthr", "thr">>>>, j), At(Sch, j), At(<<"alive", "elsewhere", "other">>, j)) : j \in 1..(IF Big THEN 80 ELSE 30)}
  \cup {P("lock", At(Pairs, j) \o <<At(<<"thr", "ahr", "aharhr">>, j)>>, At(Sch, 5 * j + j \div 7), At(<<"", "dead", "", "dead", "self">>, j \div 2)) : j \in 1..(IF Big THEN 1500 ELSE 220)}
  \cup {P("lock", <<At(<<"ahr", "thr", "aharhr">>, j), At(<<"ahr", "ahrahr", "thr">>, j \div 3), At(<<"ahr", "rahr">>, j \div 9)>>, Three(j * 7 + j \div 3), At(<<"", "dead">>, j)) : j \in 1..(IF Big THEN 3000 ELSE 260)}
  \cup {P("ring", At(Rings, j) \o <<At(<<"o", "x">>, j)>>, At(Sch, 3 * j + j \div 11), At(<<"", "dead">>, j \div 3)) : j \in 1..(IF Big THEN 1200 ELSE 120)}
  \cup {P("ring", <<At(<<"o", "LohU">>, j), At(<<"o", "x", "LoxhU">>, j \div 2), "o">>, Three(j * 11 + j \div 5), "") : j \in 1..(IF Big THEN 1200 ELSE 90)}
  \cup {P("threads", At(<<<<"ahr", "ahr", "ahr", "ahr">>, <<"aharhr", "ahrahr", "thr">>, <<"rahr", "ahr", "rrahr">>, <<"ahAhRr", "ahr">>>>, j), <<Run(1, j)>>, At(<<"", "dead">>, j \div 4)) : j \in 0..(IF Big THEN 511 ELSE 127)}
  \cup {P("ring threads", At(<<<<"o", "o", "o">>, <<"LohU", "o", "x">>, <<"LoxhU", "LohU", "xo">>>>, j), <<Run(1, j)>>, "") : j \in 0..(IF Big THEN 95 ELSE 23)}
  \cup {P("lock", <<At(<<"zhr", "zhrzr", "thrzhr">>, j), At(<<"zhr", "zhrthr">>, j \div 3)>>, At(Sch, 11 * j + j \div 13), At(<<"alive", "elsewhere", "other">>, j)) : j \in 1..(IF Big THEN 300 ELSE 30)}
  \cup {P("lock", <<At(<<"zhr", "azhrr", "zhrzr", "zr">>, j), At(<<"ahr", "zhr", "aharhr">>, j \div 4), At(<<"zhr", "ahr">>, j)>>, At(Sch, 4 * j + j \div 9), "") : j \in 1..(IF Big THEN 900 ELSE 90)}
  \cup {P("threads", At(<<<<"zhr", "ahr", "zhr">>, <<"ahr", "azhrr", "zhrzhr">>>>, j), <<Run(1, j)>>, "") : j \in 0..(IF Big THEN 95 ELSE 31)}
  \cup {P("forked", q, <<>>, "") : q \in Forks}
  \* the lock of another takes the place of one that is held (X)
  \cup {P("replaced", q, <<>>, l) : q \in {<<"z", "X", "r">>, <<"z", "z", "X", "r", "r">>, <<"z", "z", "r", "X", "r", "r">>, <<"z", "X", "g">>, <<"z", "X", "e">>, <<"z", "z", "X", "g">>, <<"z", "X", "r", "e">>, <<"z", "z", "X", "r", "e">>},
                                    l \in {"", "alive", "elsewhere"}}
  \* every operation in every way it may fail, alone and nested
  \cup {P(k, q, <<>>, "") : k \in {"public operations", "secret operations", "public dbm operations", "secret dbm operations"}, q \in Ops}
Scen == LET A == SetToSeq(Cases) IN
  [j \in 1..Len(A) |->
     [kind |-> A[j].kind, progs |-> A[j].progs, sched |-> A[j].sched, left |-> A[j].left, shared |-> (j % 2 = 0), names |-> (j % 3 = 0), n |-> j,
      key |-> A[j].kind \o FoldSeq(LAMBDA x, y : y \o " " \o x, "", A[j].progs) \o (IF A[j].left = "" THEN "" ELSE " after " \o A[j].left) \o ":"
              \o FoldSeq(LAMBDA x, y : y \o " " \o (IF x.do = "kill" THEN "kill" \o ToString(x.w) ELSE ToString(x.w) \o "*" \o ToString(x.n)), "", A[j].sched) \o (IF j % 2 = 0 THEN " s" ELSE "") \o (IF j % 3 = 0 THEN " n" ELSE "")]]
ASSUME ndJsonSerialize(IOEnv.GEN_OUT, Scen)
VARIABLE x
Init == x = 0
Next == UNCHANGED x
=============================================================================
