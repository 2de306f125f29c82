------------------------------- MODULE GenHkp -------------------------------
EXTENDS Hkp, SequencesExt, Json, IOUtils, TLC
Big == IOEnv.BIG = "1"
At(q, j) == q[(j % Len(q)) + 1]
\* ----------------------------------------------------------------- indexes
Ids == <<[j \in 1..8 |-> 48 + j], [j \in 1..16 |-> IF j % 3 = 0 THEN 97 + (j % 6) ELSE 47 + (j % 10) + 1], [j \in 1..40 |-> IF j % 4 = 1 THEN 97 + (j % 6) ELSE 48 + (j % 10)], [j \in 1..32 |-> 48 + (j % 10)]>>
Num(n) == IF n < 10 THEN <<48 + n>> ELSE <<48 + ((n \div 10) % 10)>>
Algs == <<<<49>>, <<49, 55>>, <<>>, <<50, 50>>, <<48, 49>>>>
Bits == <<<<50, 48, 52, 56>>, <<>>, <<52, 48, 57, 54>>, <<48>>>>
\* moments: 1400000000, 0, 951782400 (29 February), 1404172799, 4294967295
Times == <<<<49, 52, 48, 48, 48, 48, 48, 48, 48, 48>>, <<>>, <<48>>, <<57, 53, 49, 55, 56, 50, 52, 48, 48>>, <<49, 52, 48, 52, 49, 55, 50, 55, 57, 57>>, <<52, 50, 57, 52, 57, 54, 55, 50, 57, 53>>>>
Flags == <<{}, {"r"}, {"d"}, {"e"}, {"r", "d"}, {"r", "e"}, {"d", "e"}, {"r", "d", "e"}>>
Pool == <<<<>>, <<97>>, <<74, 32, 60, 97, 64, 98, 46, 99, 62>>, <<58>>, <<97, 58, 49, 58, 50, 58, 114>>, <<37>>, <<37, 52, 49>>, <<43, 32, 43>>, <<233>>, <<8364, 58, 128512>>, <<10, 112, 117, 98, 58, 120>>, <<13>>, <<9, 32>>, <<32>>,
          <<112, 117, 98, 58>>, <<38, 61, 59, 63, 35>>, <<34, 39, 92, 60>>, <<114, 100, 101>>, <<72, 105, 65, 71, 69, 45>>, <<8232, 133>>, <<28, 97>>, <<0>>, <<1103, 776, 65279>>, [j \in 1..95 |-> 31 + j], <<126, 123, 86, 80, 126, 125>>, <<43, 65, 71, 69, 45>>>>
U(j) == [text |-> At(Pool, j), created |-> At(Times, j \div 3), expires |-> At(Times, j \div 7 + 1), flags |-> At(Flags, j \div 2)]
Uids(n, j) == [m \in 1..n |-> U(j * 5 + m * 3 + j \div 11)]
K(i, a, b, c, e, f, us) == [id |-> i, alg |-> a, bits |-> b, created |-> c, expires |-> e, flags |-> f, uids |-> us]
KJ(j, n) == K(At(Ids, j), At(Algs, j \div 2), At(Bits, j \div 3), At(Times, j \div 5), At(Times, j \div 2 + 1), At(Flags, j), Uids(n, j))
Style(j) == [all |-> (j % 5 = 1), small |-> (j \div 2) % 2 = 0, back |-> (j \div 3) % 2 = 1, trim |-> (j % 3 # 0), upper |-> (j % 7 = 3), odd |-> (j % 6 = 2), info |-> At(<<"full", "none", "short", "bare", "full">>, j \div 2), crlf |-> (j \div 5) % 2 = 1, last |-> (j % 4 # 3)]
\* every combination of the fields of a key, of an identity, and several of them
Product(ss) == [j \in 1..Len(ss) |-> ss[j]]
AllKeys == {K(Ids[2], Algs[a], Bits[b], Times[c], Times[e], Flags[f], Uids(1, a)) : a \in 1..3, b \in 1..2, c \in 1..3, e \in {1, 2, 6}, f \in 1..8}
AllUids == {K(Ids[1], Algs[1], Bits[1], Times[1], Times[2], {}, <<[text |-> Pool[p], created |-> Times[c], expires |-> Times[e], flags |-> Flags[f]]>>) : p \in {1, 2, 5, 9}, c \in {1, 2, 3}, e \in {1, 2}, f \in 1..8}
           \cup {K(Ids[1], Algs[1], Bits[1], Times[1], Times[2], {}, <<[text |-> Pool[p], created |-> Times[1], expires |-> Times[2], flags |-> {}]>>) : p \in 1..Len(Pool)}
Several == [j \in 1..(IF Big THEN 3000 ELSE 400) |-> [m \in 1..(j % 5) |-> KJ(j * 3 + m * 7, (j \div 3 + m) % 4)]]
Answers == LET a == SetToSeq(AllKeys)  b == SetToSeq(AllUids) IN
  [j \in 1..Len(a) |-> <<a[j]>>] \o [j \in 1..Len(b) |-> <<b[j]>>] \o Several
Nine(ks) == Len(ks) < 10
Base(s, h, p, path, up) == [scheme |-> s, host |-> h, port |-> p, path |-> path, upper |-> up]
Bases == <<Base("hkp", "keys.example.org", 0, "", FALSE), Base("hkp", "keys.example.org", 0, "/", FALSE), Base("hkp", "Keys.example.org", 80, "/", FALSE), Base("hkp", "127.0.0.1", 11372, "", TRUE), Base("hkps", "keys.example.org", 0, "/", FALSE),
           Base("hkps", "keys.example.org", 11371, "", TRUE), Base("http", "keys.example.org", 0, "", FALSE), Base("http", "keys.example.org", 8080, "/sub/", FALSE), Base("https", "keys.example.org", 0, "/sub/dir/", FALSE), Base("https", "keys.example.org", 8443, "/", FALSE), Base("hkp", "[::1]", 0, "/", FALSE)>>
No == [do |-> "", terms |-> <<>>, exact |-> FALSE, k |-> "", form |-> "", upper |-> FALSE, nm |-> FALSE, v |-> 1, secret |-> FALSE, status |-> 200, text |-> <<>>, type |-> "", keys |-> <<>>, shape |-> "", then |-> 0]
Types == <<"text/plain", "text/plain; charset=UTF-8", "", "text/plain; charset=iso-8859-1", "application/pgp-keys">>
Search(terms, exact, status, text, type) == [No EXCEPT !.do = "search", !.terms = terms, !.exact = exact, !.status = status, !.text = text, !.type = type]
\* ------------------------------------------------------------ conversations
C(k, form, upper, keys, shape, status) == [No EXCEPT !.do = "get", !.k = k, !.form = form, !.upper = upper, !.keys = keys, !.shape = shape, !.status = status, !.type = "application/pgp-keys"]
V(x, v) == [k |-> x, v |-> v]
Names == {"a", "b", "c", "d", "e", "f", "g"}
Forms == {"fp", "long", "short"}
Served(k) == {<<V(k, 1)>>, <<V(k, 2)>>}
Other == <<"b", "a", "d", "c", "f", "e", "a">>
NameSeq == <<"a", "b", "c", "d", "e", "f", "g">>
Shapes == {"plain", "crlf", "blank", "headers"}
Bad == {"empty", "html", "cut", "garbled"}
Fails == <<400, 401, 403, 404, 410, 413, 422, 429, 500, 501, 502, 503, 504>>
Gets == {C(k, f, u, s, "plain", 200) : k \in Names, f \in Forms, u \in BOOLEAN, s \in {<<V(kk, 1)>> : kk \in Names}}
        \cup {C(k, f, FALSE, <<V(k, 2)>>, s, 200) : k \in Names, f \in Forms, s \in Shapes}
        \cup UNION {{C(k, f, FALSE, <<V(x, 1), V(k, 2)>>, "plain", 200), C(k, f, FALSE, <<V(k, 2), V(x, 1)>>, "headers", 200)} : k \in Names, f \in Forms, x \in {"a", "c", "d", "e"}}
        \cup {C(k, "fp", FALSE, <<V(x, 1), V(y, 2), V(k, 2)>>, "plain", 200) : k \in {"b", "d", "f"}, x \in {"c", "e"}, y \in {"a", "g"}}
        \cup {C(k, "long", FALSE, <<V(k, 1)>>, s, 200) : k \in {"a", "d"}, s \in Bad}
        \cup {C(k, "long", FALSE, s, "plain", Fails[j]) : k \in {"a"}, s \in {<<V("a", 1)>>}, j \in 1..Len(Fails)}
        \cup {C("b", "sub " \o f, FALSE, s, "plain", 200) : f \in Forms, s \in {<<V("b", 1)>>, <<V("a", 1)>>, <<V("a", 1), V("b", 2)>>}}
Submit(k, v, secret, nm, status) == [No EXCEPT !.do = "submit", !.k = k, !.v = v, !.secret = secret, !.nm = nm, !.status = status, !.type = "text/plain"]
Submits == {Submit(k, v, FALSE, nm, 200) : k \in Names, v \in {1, 2}, nm \in BOOLEAN} \cup {Submit(k, v, TRUE, FALSE, 200) : k \in Names \ {"e", "f"}, v \in {1, 2}}
           \cup {Submit("a", 1, FALSE, FALSE, Fails[j]) : j \in 1..Len(Fails)}
IndexOf(j) == Write(At(Several, j), Style(j))
Searches == {Search(Pool[p], x, 200, IndexOf(p), "text/plain") : p \in 2..Len(Pool), x \in BOOLEAN}
            \cup {Search(<<97>>, FALSE, Fails[j], s, "text/plain") : j \in 1..Len(Fails), s \in {<<>>, Write(<<KJ(3, 1)>>, Style(1))}}
            \cup {Search(<<97>>, FALSE, 200, <<>>, t) : t \in {"text/plain", ""}}
\* what was found is fetched: the second key of the answer
Found == {[C(k, f, u, <<V(k, v)>>, "plain", 200) EXCEPT !.do = "found", !.then = m] : k \in Names, f \in Forms, u \in BOOLEAN, v \in {1, 2}, m \in {1, 2}}
Moved == {[c EXCEPT !.then = 302] : c \in {C("a", "fp", FALSE, <<V("a", 2)>>, "plain", 200), Search(<<97, 32>>, FALSE, 200, Write(<<KJ(5, 2)>>, Style(2)), "text/plain")}}
Talk == LET g == SetToSeq(Gets)  s == SetToSeq(Submits)  q == SetToSeq(Searches)  f == SetToSeq(Found) IN
  [j \in 1..Len(g) |-> <<g[j]>>] \o [j \in 1..Len(s) |-> <<s[j]>>] \o [j \in 1..Len(q) |-> <<q[j]>>] \o [j \in 1..Len(f) |-> <<f[j]>>] \o SetToSeq({<<m>> : m \in Moved})
  \o [j \in 1..(IF Big THEN 1500 ELSE 200) |-> [m \in 1..(2 + (j % 3)) |-> LET x == j * 13 + m * 29 + j \div 7 IN At(<<At(g, x * 3), At(s, x), At(q, x * 5), At(f, x * 7)>>, x \div 3)]]
Scen == LET a == Answers  t == Talk IN
  [j \in 1..Len(a) |-> [kind |-> "index", base |-> Bases[1], tz |-> At(<<"UTC", "America/New_York", "Asia/Kolkata">>, j), ops |-> <<Search(<<97>>, FALSE, 200, Write(a[j], Style(j)), At(Types, j))>>, key |-> "index " \o ToString(j), n |-> j]]
  \o [j \in 1..Len(t) |-> [kind |-> "talk", base |-> At(Bases, j), tz |-> "UTC", ops |-> t[j], key |-> "talk " \o ToString(j) \o FoldSeq(LAMBDA o, y : y \o ", " \o o.do \o " " \o o.k, "", t[j]), n |-> Len(a) + j]]
ASSUME ndJsonSerialize(IOEnv.GEN_OUT, Scen)
VARIABLE x
Init == x = 0
Next == UNCHANGED x
=============================================================================
