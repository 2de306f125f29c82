------------------------------ MODULE GenFresh ------------------------------
(***************************************************************************)
(* Histories of operations that draw random values.  obj says which of two *)
(* messages (of different text), where in which circumstances:             *)
(*   "here"    in the same process                                         *)
(*   "seeded"  after seeding the general-purpose generator, clock stopped  *)
(*   "child"   in a forked process, and again in the parent                *)
(*   "threads" in four threads at once                                     *)
(*   "copy"    with a copy of the message                                  *)
(*   "fresh"   with a newly made message of the same content               *)
(***************************************************************************)
EXTENDS Fresh, SequencesExt, Json, IOUtils, TLC
Big == IOEnv.BIG = "1"
Few(n, S) == LET q == SetToSeq(S) IN {q[j] : j \in {j \in 1..Len(q) : j % n = 1}}
Pub(l) == [op |-> "pub", to |-> l, hid |-> <<>>, cipher |-> 9, ip |-> TRUE, alg |-> 0, obj |-> 1, where |-> "here", given |-> FALSE]
Sym == [Pub(<<>>) EXCEPT !.op = "sym"]
Sign(k, h) == [Pub(<<k>>) EXCEPT !.op = "sign", !.alg = h]
Base == {Pub(<<"rsaE">>), Pub(<<"elgA">>), Pub(<<"rsaE", "rsaE", "elgA", "elgA", "rsaF", "elgB">>), [Pub(<<"rsaE">>) EXCEPT !.hid = <<"elgA", "rsaE">>], Sym, Sign("dsaA", 8)}
Wheres == {"here", "seeded", "child", "threads", "copy", "fresh"}
All == {[b EXCEPT !.obj = o, !.where = w] : b \in Base, o \in {1, 2}, w \in Wheres}
Twice(o) == <<o, o>>
Ciphers == {1, 2, 3, 4, 7, 8, 9, 10, 11, 12, 13}
Singles == {Twice([b EXCEPT !.cipher = c, !.ip = ip]) : b \in {Pub(<<"rsaE">>), Pub(<<"elgB">>), Sym}, c \in Ciphers, ip \in BOOLEAN}
  \cup {Twice([b EXCEPT !.where = w, !.ip = ip]) : b \in Base, w \in Wheres, ip \in BOOLEAN}
  \cup {Twice([Sym EXCEPT !.alg = t, !.where = w]) : t \in {1, 3}, w \in {"here", "seeded"}}
  \cup {<<Sign(k, h), [Sign(k, h) EXCEPT !.obj = 2], Sign(k, h)>> : k \in {"dsaA", "dsaB", "dsaQ224", "dsaQ256", "dsaTop"}, h \in {1, 2, 3, 8, 9, 10, 11}}
  \cup {<<[b EXCEPT !.given = TRUE], b, [b EXCEPT !.obj = 2], b>> : b \in {Pub(<<"rsaE">>), Pub(<<"elgA", "rsaE">>), Sym}}
Many == {[j \in 1..16 |-> [b EXCEPT !.obj = 1 + (j % 2), !.where = IF j % 4 = 3 THEN "seeded" ELSE "here"]] : b \in Base}
Pairs == {<<a, b>> : a \in All, b \in All}
Triples == {<<a, b, c>> : a \in All, b \in Few(5, All), c \in All}
Hist == Singles \cup Many \cup (IF Big THEN Pairs \cup Few(7, Triples) ELSE Few(9, Pairs))
RECURSIVE Txt(_)
Txt(h) == IF h = <<>> THEN "" ELSE LET o == h[1] IN
  o.op \o (IF o.given THEN " given" ELSE "") \o (IF o.op = "sign" THEN " " \o o.to[1] \o "/" \o ToString(o.alg) ELSE " " \o ToString(Len(o.to)) \o "+" \o ToString(Len(o.hid)) \o " cipher " \o ToString(o.cipher) \o (IF o.ip THEN "" ELSE " plain"))
  \o " " \o o.where \o " " \o ToString(o.obj) \o "; " \o Txt(Tail(h))
Scen == LET A == SetToSeq(Hist) IN [j \in 1..Len(A) |-> [ops |-> A[j], n |-> j, key |-> IF Len(A[j]) > 8 THEN "many " \o Txt(SubSeq(A[j], 1, 1)) ELSE Txt(A[j])]]
ASSUME ndJsonSerialize(IOEnv.GEN_OUT, Scen)
VARIABLE x
Init == x = 0
Next == UNCHANGED x
=============================================================================
