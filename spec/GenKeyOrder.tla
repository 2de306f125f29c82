---------------------------- MODULE GenKeyOrder ----------------------------
EXTENDS KeyOrder, Json, IOUtils, TLC
Big == IOEnv.BIG = "1"
All == {"k", "S", "s", "U", "A", "d", "r", "c", "x", "b", "v", "o", "T", "L"}
Some == {"S", "U", "A", "d", "c", "x", "b", "v", "T"}
Seqs(n, A) == {<<"K">> \o f : f \in [1..n -> A]}
Few(n, S) == LET q == SetToSeq(S) IN {q[j] : j \in {j \in 1..Len(q) : j % n = 1}}
Short == UNION {Seqs(n, All) : n \in 0..3} \cup {<<>>, <<"U">>, <<"S", "b">>, <<"s">>, <<"d">>, <<"L">>, <<"T">>, <<"T", "K", "U">>, <<"c", "K", "U">>}
\* legal keys of any length up to n, by their grammar
RECURSIVE Grow(_)
Grow(n) == IF n = 1 THEN {<<"K">>}
           ELSE UNION {{Append(q, t) : t \in {t \in {"S", "U", "A", "d", "r", "c", "x", "b", "v"} : Walk("start", Append(q, t)) \notin {"no", "open"}}} : q \in Grow(n - 1)}
Long == UNION {Few(IF n < 7 \/ Big THEN 1 ELSE n * 5, Grow(n)) : n \in 5..(IF Big THEN 8 ELSE 8)}
\* two identities, attributes and subkeys each with several signatures, mixed
Full == {<<"K", "r", "d", "U", "c", "c", "x", "A", "c", "U", "A", "x", "S", "b", "v", "S", "b", "b", "v", "v", "S", "b">>,
         <<"K", "U", "c", "U", "U", "c", "c", "A", "A", "c", "S", "b", "S", "b">>, <<"K", "d", "d", "r", "A", "c", "U", "c">>,
         <<"K", "T", "U", "T", "c", "T", "c", "T", "S", "T", "b", "T">>, <<"K", "d", "T", "U", "c", "T", "T", "c", "S", "b", "T", "v", "T", "S", "b">>}
Mutate(s) == {RemoveAt(s, j) : j \in 1..Len(s)} \cup {[s EXCEPT ![j] = s[j + 1], ![j + 1] = s[j]] : j \in 1..(Len(s) - 1)}
             \cup {InsertAt(s, j, t) : t \in All \cup {"K"}, j \in 2..(Len(s) + 1)}
Reads == Short \cup Long \cup Full \cup UNION {Mutate(s) : s \in Full} \cup (IF Big THEN Seqs(4, All) ELSE Few(9, Seqs(4, Some))) \cup UNION {Mutate(s) : s \in Few(IF Big THEN 3 ELSE 40, Long)}
E(op, kind, n) == [op |-> op, kind |-> kind, n |-> n]
Moves == {E(op, k, n) : op \in {"drop", "unsign", "resign", "swap"}, k \in {"K", "U", "A", "S"}, n \in 1..2} \cup {E("name", "U", 1), E("name", "U", 2)}
Bases == {<<"K", "d", "r", "U", "c", "x", "U", "c", "A", "c", "A", "S", "b", "v", "S", "b">>, <<"K", "U", "c", "c", "S", "b">>}
Ok(cs, e) == e.op = "name" \/ Can(cs, e)
Progs == UNION {{<<b, <<e>>>> : e \in {e \in Moves : Ok(Comps(b), e)}} : b \in Bases}
         \cup UNION {UNION {{<<b, <<e, f>>>> : f \in {f \in Moves : Ok(Edit(Comps(b), e), f) /\ ~(e.op = "name" /\ f = e)}} : e \in {e \in Moves : Ok(Comps(b), e)}} : b \in Bases}
Name(q) == LET RECURSIVE J(_)
               J(p) == IF p = <<>> THEN "" ELSE Head(p) \o J(Tail(p)) IN J(q)
ProgName(es) == LET RECURSIVE J(_)
                    J(p) == IF p = <<>> THEN "" ELSE " " \o Head(p).op \o " " \o Head(p).kind \o ToString(Head(p).n) \o J(Tail(p)) IN J(es)
Sec == {TRUE, FALSE}
Scen == LET R == SetToSeq({<<q, z>> : q \in Reads, z \in Sec})
            P == SetToSeq({<<p, z>> : p \in Progs, z \in Sec})
            V == SetToSeq({<<q, z>> : q \in Few(7, Short) \cup Few(11, Long), z \in Sec})
            W == SetToSeq({<<q, z>> : q \in Few(40, Short) \cup Full, z \in Sec})
            One(q, es, z, ver, j) == [toks |-> q, edits |-> es, secret |-> z, version |-> ver, n |-> j,
                                      key |-> (IF z THEN "secret " ELSE "public ") \o (IF ver < 4 THEN "v" \o ToString(ver) \o " " ELSE "") \o Name(q) \o ProgName(es)] IN
  [j \in 1..Len(R) |-> One(R[j][1], <<>>, R[j][2], 4, j)] \o [j \in 1..Len(P) |-> One(P[j][1][1], P[j][1][2], P[j][2], 4, j)]
  \o [j \in 1..Len(V) |-> One(V[j][1], <<>>, V[j][2], IF j % 4 = 0 THEN 2 ELSE 3, j)]
  \o [j \in 1..Len(W) |-> One(W[j][1], <<>>, W[j][2], 2, j)]
ASSUME ndJsonSerialize(IOEnv.GEN_OUT, Scen)
VARIABLE x
Init == x = 0
Next == UNCHANGED x
=============================================================================
