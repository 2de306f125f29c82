---------------------------- MODULE GenSigning ----------------------------
EXTENDS Signing, FiniteSets, Json, IOUtils, TLC
Big == IOEnv.BIG = "1"
Keys == ndJsonDeserialize(IOEnv.KEYS)       \* name, version, alg, body, id
KeyOf(n, v) == Keys[CHOOSE j \in 1..Len(Keys) : Keys[j].name = n /\ Keys[j].version = v]
Txt == <<72, 105, 10, 116, 104, 101, 114, 101, 13, 10>>
Docs == {<<>>, <<97>>, Txt, [j \in 1..256 |-> j - 1], <<153, 0, 1, 7>>, [j \in 1..3000 |-> (j * 7) % 251]}
Long(n) == [j \in 1..n |-> 65 + (j % 26)]
Uids == {<<65, 32, 60, 97, 64, 98, 62>>, <<>>, <<195, 169>>, <<233>>, Long(300), <<0, 255>>}
SubP(t, b, form) == LET n == Len(b) + 1 IN
  (CASE form = 1 -> <<n>> [] form = 2 -> <<192 + ((n - 192) \div 256), (n - 192) % 256>> [] form = 5 -> <<255>> \o U4(n)) \o <<t>> \o b
ImgB(fmt, data) == <<16, 0, 1, fmt>> \o Zeros(12) \o data
Uats == {SubP(1, ImgB(1, <<255, 216, 255, 224>> \o Long(20)), 1), SubP(1, ImgB(1, <<1, 2, 3>>), 1), SubP(1, ImgB(100, <<137, 80, 78, 71, 13, 10, 26, 10>>), 1),
         SubP(1, ImgB(1, <<71, 73, 70, 56, 57, 97>> \o Long(300)), 2), SubP(1, ImgB(1, Long(9)), 5), SubP(2, <<1, 2, 3>>, 1), SubP(100, <<>>, 1),
         SubP(1, ImgB(1, Long(5)), 1) \o SubP(101, <<9>>, 1), SubP(1, ImgB(1, Long(5)), 1) \o SubP(1, ImgB(1, Long(6)), 1)}
SubX(t, b) == SubP(t, b, 1)
\* hashed areas: creation time (and issuer) with others
Time == SubX(2, <<83, 114, 78, 1>>)
Iss(id) == SubX(16, id)
Areas(id) == {<<Time \o Iss(id), <<>>>>, <<Time, Iss(id)>>, <<Iss(id) \o Time, <<>>>>, <<Time \o SubX(26, <<104, 116, 116, 112>>) \o Iss(id), SubX(100, <<1>>)>>,
  <<SubP(2, <<83, 114, 78, 1>>, 5), Iss(id)>>, <<Time \o SubX(20, <<128, 0, 0, 0, 0, 3, 0, 2, 97, 64, 98, 49, 50>>) \o Iss(id), <<>>>>,
  <<Time \o SubX(100, Long(9)) \o Iss(id), Iss(id)>>, <<Time \o SubP(101, Long(300), 2) \o Iss(id), <<>>>>, <<Time \o Time \o Iss(id), <<>>>>,
  <<Time \o Iss(id) \o SubX(4, <<0>>), <<>>>>, <<Time \o Iss(id) \o SubX(7, <<0>>), <<>>>>, <<SubX(130, <<83, 114, 78, 1>>) \o Iss(id) \o SubX(155, <<3>>), <<>>>>, <<Time \o Iss(id) \o SubX(25, <<1>>), <<>>>>,
  <<Time \o Iss(id) \o SubX(27, <<3, 0, 1>>), <<>>>>, <<Time \o Iss(id) \o SubX(30, <<>>), <<>>>>, <<Time \o Iss(id) \o SubX(11, <<9, 8, 200>>), <<>>>>,
  <<Time \o Iss(id) \o SubX(5, <<1, 60>>) \o SubX(6, <<60, 46, 62, 0>>), <<>>>>,
  <<Time \o Iss(id) \o SubX(9, <<0, 0, 0, 0>>) \o SubX(3, <<0, 0, 0, 0>>), <<>>>>,
  <<Time \o Iss(id) \o SubX(29, <<2, 195, 169>>) \o SubX(28, <<65, 64, 98>>) \o SubX(24, <<120, 58, 47>>) \o SubX(23, <<128, 0>>), <<>>>>,
  <<Time \o Iss(id) \o SubX(12, <<192, 17>> \o Zeros(20)), <<>>>>,
  <<Time \o Iss(id) \o SubX(31, <<17, 2>> \o Zeros(20)), <<>>>>,
  <<Time \o Iss(id) \o SubX(32, <<4, 25, 1, 2, 0, 0, 0, 0, 7, 7>> \o Mpi(<<9, 9>>)), <<>>>>}
NoItem == [kind |-> "doc", data |-> <<>>, owner |-> "", key |-> <<>>, sub |-> <<>>, subname |-> "", sig |-> <<>>]
SubName == "rsaF"
D(d) == [NoItem EXCEPT !.data = d]
Of(o, kind) == [NoItem EXCEPT !.kind = kind, !.owner = o.name, !.key = o.body]
TargetSig(v, un) == [version |-> v, type |-> 16, palg |-> 17, halg |-> 2, created |-> <<83, 114, 78, 1>>, id |-> <<1, 2, 3, 4, 5, 6, 7, 8>>,
                 hashed |-> IF v < 4 THEN <<>> ELSE Time, unhashed |-> un, hash2 |-> <<7, 7>>, values |-> Mpi(<<9, 9>>) \o Mpi(<<8>>)]
\* everything certifiable under an owner: pairs of a type and an item
On(o) ==
  {<<t, Of(o, "key")>> : t \in {31, 32}}
  \cup {<<t, [Of(o, "uid") EXCEPT !.data = u]>> : t \in {16, 17, 18, 19, 48}, u \in {<<65, 32, 60, 97, 64, 98, 62>>, <<233>>}}
  \cup {<<19, [Of(o, "uid") EXCEPT !.data = u]>> : u \in Uids} \cup {<<19, [Of(o, "uat") EXCEPT !.data = u]>> : u \in Uats}
  \cup {<<48, [Of(o, "uat") EXCEPT !.data = SubP(2, <<1, 2, 3>>, 1)]>>}
  \cup (IF o.version < 4 THEN {} ELSE {<<t, [Of(o, "subkey") EXCEPT !.sub = KeyOf(SubName, 4).body, !.subname = SubName]>> : t \in {24, 25, 40}})
Plain == {<<t, D(d)>> : t \in {0, 1}, d \in Docs} \cup {<<2, D(<<>>)>>}
  \cup {<<80, [NoItem EXCEPT !.kind = "sig", !.sig = TargetSig(v[1], v[2])]>> : v \in {<<4, <<>>>>, <<4, SubX(100, <<5>>)>>, <<3, <<>>>>, <<2, <<>>>>}}
S(signer, ti, halg, ver, area) ==
  [signer |-> [name |-> signer.name, version |-> signer.version, id |-> signer.id, alg |-> signer.alg], type |-> ti[1], item |-> ti[2], halg |-> halg, version |-> ver,
   hashed |-> IF ver < 4 THEN <<>> ELSE area[1], unhashed |-> IF ver < 4 THEN <<>> ELSE area[2], created |-> <<83, 114, 78, 1>>]
A0(k) == <<Time \o Iss(k.id), <<>>>>
Halgs == {1, 2, 3, 8, 9, 10, 11}
Signers == {Keys[j] : j \in {j \in 1..Len(Keys) : Keys[j].sign}}
Main == {k \in Signers : k.name \in {"rsaA", "dsaA"} /\ k.version = 4}
Other == KeyOf("rsaB", 4)
U1 == <<65, 32, 60, 97, 64, 98, 62>>
Grid == {S(k, ti, h, v, A0(k)) : k \in Signers, h \in Halgs, v \in {3, 4}, ti \in {<<0, D(Txt)>>, <<19, [Of(Other, "uid") EXCEPT !.data = U1]>>}}
Kinds == UNION {{S(k, ti, 8, v, A0(k)) : v \in {3, 4}, ti \in Plain \cup On(k) \cup On(Other)} : k \in Main}
Old == {S(k, ti, 2, 2, A0(k)) : k \in {x \in Signers : x.version = 3}, ti \in {<<0, D(Txt)>>} \cup On(Other)}
       \cup UNION {{S(k, ti, 1, 3, A0(k)) : ti \in On(k) \cup Plain} : k \in {x \in Signers : x.version = 3}}
Attr == UNION {{S(k, ti, 2, 4, a) : a \in Areas(k.id), ti \in {<<0, D(Txt)>>, <<16, [Of(Other, "uid") EXCEPT !.data = U1]>>}} : k \in Main}
\* wide hashed areas
Wide == UNION {{S(k, ti, 8, 4, <<Time \o Iss(k.id) \o SubP(101, Long(n), IF n < 8300 THEN 2 ELSE 5), <<>>>>) : n \in {8177, 8200, 8378, 16400, 33000, 65500}, ti \in {<<0, D(<<97>>)>>, <<19, [Of(Other, "uid") EXCEPT !.data = U1]>>}} : k \in Main}
\* many documents: digests and signature values of all forms
Num(n) == <<48 + ((n \div 1000) % 10), 48 + ((n \div 100) % 10), 48 + ((n \div 10) % 10), 48 + (n % 10)>>
Many == {S(k, <<0, D(Num(n))>>, 8, 4, A0(k)) : n \in 0..(IF Big THEN 800 ELSE 20), k \in {x \in Signers : x.name \in {"rsaC", "dsaTop"}}}
        \cup {S(k, <<0, D(Num(n))>>, 2, 4, A0(k)) : n \in 0..(IF Big THEN 800 ELSE 60), k \in {x \in Signers : x.name \in {"dsaA"}}}
All == Grid \cup Kinds \cup Old \cup Attr \cup Wide \cup Many
Scen == LET A == SetToSeq(All) IN
  [j \in 1..Len(A) |-> LET s == A[j] IN
    [s |-> s, covered |-> Covered(s.type, s.item, s.version), body |-> IF s.item.kind = "sig" THEN SigBody(s.item.sig) ELSE <<>>,
     key |-> s.signer.name \o " v" \o ToString(s.signer.version) \o " type " \o ToString(s.type) \o " digest " \o ToString(s.halg) \o " sig v"
             \o ToString(s.version) \o " " \o s.item.kind \o " " \o s.item.owner \o " "
             \o ToString(IF Len(s.item.data) > 20 THEN <<Len(s.item.data), s.item.data[1], s.item.data[6]>> ELSE s.item.data)
             \o ToString(IF s.hashed = Time \o Iss(s.signer.id) THEN <<>> ELSE IF Len(s.hashed) > 5000 THEN <<Len(s.hashed)>> ELSE s.hashed \o <<999>> \o s.unhashed)
             \o (IF s.item.kind = "sig" THEN ToString(<<s.item.sig.version, s.item.sig.unhashed>>) ELSE "")]]
\* a document signed without saying how: version 4, binary, the most preferred digest
Prefs == {<<8>>, <<2>>, <<10, 8>>, <<9, 8, 2>>, <<11, 1>>, <<1, 2>>, <<3, 10>>, <<8, 2, 10, 9, 11, 1, 3>>}
Plainly == LET A == SetToSeq({<<p, n, ty>> : p \in Prefs, n \in {"rsaA", "dsaA"}, ty \in {0, 1}}) IN
  [j \in 1..Len(A) |-> [prefs |-> A[j][1], name |-> A[j][2], type |-> A[j][3], key |-> "most preferred of " \o ToString(A[j])]]
ASSUME ndJsonSerialize(IOEnv.GEN_OUT, Scen \o Plainly)
VARIABLE x
Init == x = 0
Next == UNCHANGED x
=============================================================================
