---------------------------- MODULE GenSigAttrs ----------------------------
EXTENDS SigAttrs, Json, IOUtils, TLC
Big == IOEnv.BIG = "1"
ListValues == {<<>>, <<1>>, <<2>>, <<1, 2>>, <<2, 1>>, <<3, 1, 2>>, <<2, 2>>}
Op(a, v) == [a |-> a, v |-> v]
\* lists of one length keep JSON regular: everything is a sequence
Ops == {Op(a, <<v>>) : a \in Bools, v \in 1..2} \cup UNION {{Op(a, <<v>>) : v \in Values(a)} : a \in Numbers \cup Texts \cup Prefs}
       \cup {Op(a, v) : a \in Lists, v \in ListValues} \cup {Op("creation_time", <<v>>) : v \in {1, 3, 5, 7, 8}} \cup {Op("signature_expiration_time", <<v>>) : v \in {0, 3, 4, 6, 7}}
       \cup {Op("key_expiration_time", <<v>>) : v \in {0, 1, 2, 4, 6, 7, 8}}
Few(n, S) == LET q == SetToSeq(S) IN {q[j] : j \in {j \in 1..Len(q) : j % n = 1}}
\* what the signature says before: nothing, all kinds of things, everything
With(f) == [a \in Attrs |-> IF a \in DOMAIN f THEN f[a] ELSE Nothing[a]]
SomeOf == With([creation_time |-> 3, issuer_key_ids |-> <<1>>, preferred_hash_algorithms |-> 2, revocation_keys |-> <<1, 2>>, notations |-> <<2, 1>>, policy_uri |-> 2, exportable |-> 2])
Every == [a \in Attrs |-> CASE a \in Flags -> IF a \in {"may_sign_data", "may_be_used_for_auth", "may_have_multiple_owners"} THEN 1 ELSE 2
                            [] a \in Bools -> 1 [] a \in Numbers \cup Prefs -> 2 [] a \in Texts -> 3 [] a \in Lists -> <<2, 1>>
                            [] a = "creation_time" -> 3 [] a = "signature_expiration_time" -> 5 [] OTHER -> 6]
Base(name, version, st, about) == [name |-> name, version |-> version, st |-> st, about |-> about]
Made == With([creation_time |-> 3, issuer_key_ids |-> <<1>>])
Bases == {Base("made", 4, Made, "uid"), Base("bare", 4, Nothing, "key"), Base("some", 4, SomeOf, "uid"), Base("every", 4, Every, "subkey"), Base("tampered", 4, SomeOf, "key"), Base("twice", 4, Every, "uid"),
          Base("critical", 4, [Every EXCEPT !["notations"] = <<9>>], "uid"), Base("critical", 4, [SomeOf EXCEPT !["notations"] = <<8>>], "key"), Base("critical", 4, [SomeOf EXCEPT !["notations"] = <<7>>], "subkey"),
          Base("message", 4, Made, "message"), Base("old", 3, Made, "uid"), Base("oldmade", 3, Made, "key")}
Two == UNION {{<<o, p>> : p \in Ops} : o \in Ops}
Related(o, p) == o.a = p.a \/ p.a \in Group(o.a) \/ {o.a, p.a} \subseteq Times
Pairs(b) == IF b.name \in {"made", "some", "every"} \/ Big THEN {s \in Two : Related(s[1], s[2])} \cup (IF Big THEN Two ELSE Few(9, Two)) ELSE Few(30, Two)
TimeOps == {o \in Ops : o.a \in Times /\ (Big \/ o.v[1] < 7)}
Triples == {<<o, p, q>> : o \in TimeOps, p \in TimeOps, q \in TimeOps}
Some(n) == LET q == SetToSeq(Ops)  k == Len(q) IN {<<q[((j * 7) % k) + 1], q[((j * j + 3) % k) + 1], q[((j * 31 + j \div 5) % k) + 1], q[((j * 13 + j \div 3) % k) + 1], q[((j * 3 + j \div 2) % k) + 1], q[((j * 17) % k) + 1]>> : j \in 1..n}
Seqs(b) == {<<>>} \cup {<<o>> : o \in Ops} \cup Pairs(b) \cup (IF b.name \in {"made", "every"} THEN Triples ELSE {}) \cup Some(IF Big THEN 3000 ELSE 200)
Wire(st) == [a \in Attrs |-> IF a \in Lists THEN st[a] ELSE <<st[a]>>]
OpName(o) == LET RECURSIVE J(_)
                 J(v) == IF v = <<>> THEN "" ELSE ToString(Head(v)) \o " " \o J(Tail(v)) IN o.a \o " := " \o J(o.v)
Name(s) == LET RECURSIVE J(_)
               J(q) == IF q = <<>> THEN "" ELSE "; " \o OpName(Head(q)) \o J(Tail(q)) IN J(s)
Scen == LET A == SetToSeq(UNION {{<<b, s>> : s \in Seqs(b)} : b \in Bases}) IN
  [j \in 1..Len(A) |-> [base |-> A[j][1].name, version |-> A[j][1].version, about |-> A[j][1].about, start |-> Wire(A[j][1].st), ops |-> A[j][2], n |-> j, key |-> A[j][1].name \o Name(A[j][2])]]
ASSUME ndJsonSerialize(IOEnv.GEN_OUT, Scen)
VARIABLE x
Init == x = 0
Next == UNCHANGED x
=============================================================================
