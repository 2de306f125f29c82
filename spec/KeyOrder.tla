----------------------------- MODULE KeyOrder -----------------------------
(***************************************************************************)
(* Transferable keys as sequences of packets.  A token is one packet:      *)
(*   K the key   k another primary key   S a subkey of the same secrecy    *)
(*   s a subkey of the other secrecy   U identity   A attribute            *)
(*   signatures, by kind: d directly on a key, r key revocation,           *)
(*   c certification, x its revocation, b binding, v subkey revocation,    *)
(*   o of a document                                                       *)
(*   T trust packet   L literal data                                       *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt
Sigs == {"d", "r", "c", "x", "b", "v", "o"}
Bad0 == "no"
\* "open": the standard and the library's documentation leave it open whether
\* such a sequence is a key; the rest of it is not looked at
Step(s, t, v) ==
  IF s \in {"no", "open"} THEN s
  ELSE IF t = "T" THEN (IF s = "start" THEN "no" ELSE "T" \o s)
  ELSE CASE s = "start" -> IF t = "K" THEN "key" ELSE "no"
         [] s = "key" -> IF t \in {"d", "r"} THEN "key" ELSE IF t = "x" THEN "open" ELSE IF t \in {"U", "A"} THEN "id" ELSE IF t = "S" THEN "sub" ELSE "no"
         [] s = "id" -> IF t \in {"c", "x"} THEN "id" ELSE IF t \in {"U", "A"} THEN "id" ELSE IF t = "S" THEN "sub" ELSE "no"
         [] s = "sub" -> IF t = "b" THEN "bind" ELSE IF t = "v" THEN "open" ELSE "no"
         [] s = "bind" -> IF t = "b" THEN "bind" ELSE IF t = "v" THEN "rev" ELSE IF t = "S" THEN "sub" ELSE "no"
         [] s = "rev" -> IF t = "v" THEN "rev" ELSE IF t = "b" THEN "open" ELSE IF t = "S" THEN "sub" ELSE "no"
         [] OTHER -> "no"
\* trust packets follow signatures; elsewhere they are left open, and
\* whether the rest is in order is judged without them
Plain(q) == SelectSeq(q, LAMBDA t : t # "T")
RECURSIVE Walk(_, _)
Walk(s, q) == IF q = <<>> THEN s ELSE Walk(Step(s, Head(q), 4), Tail(q))
TrustOk(q) == \A j \in 1..Len(q) : q[j] = "T" => \E i \in 1..(j - 1) : q[i] \in Sigs /\ \A m \in i..(j - 1) : q[m] \in Sigs \cup {"T"}
Has(q, t) == \E j \in 1..Len(q) : q[j] = t
\* "yes", "no" or "open"
Legal(q, v) ==
  LET e == Walk("start", Plain(q)) IN
  IF q = <<>> \/ q[1] # "K" THEN "no"
  ELSE IF v < 4 /\ (Has(q, "S") \/ Has(q, "s")) THEN "no"
  ELSE IF e = "no" \/ e = "sub" THEN "no"
  ELSE IF e = "open" \/ ~TrustOk(q) \/ ~Has(q, "U") \/ (v < 4 /\ Has(q, "A")) THEN "open" ELSE "yes"
\* the components with the signatures that follow them; positions in q
Comps(q) == LET P == SelectSeq([j \in 1..Len(q) |-> j], LAMBDA j : q[j] \in {"K", "U", "A", "S"})
                End(i) == IF i = Len(P) THEN Len(q) ELSE P[i + 1] - 1 IN
            [i \in 1..Len(P) |-> [kind |-> q[P[i]], pos |-> P[i], sigs |-> SelectSeq([j \in 1..(End(i) - P[i]) |-> P[i] + j], LAMBDA j : q[j] \in Sigs)]]
\* the packets of components, as positions; trust packets are not written
RECURSIVE Write(_)
Write(cs) == IF cs = <<>> THEN <<>> ELSE <<Head(cs).pos>> \o Head(cs).sigs \o Write(Tail(cs))
Of(cs, kind) == SelectSeq(cs, LAMBDA c : c.kind = kind)
\* changes to a key: its identities stay before its attributes, if they were
Grouped(cs) == Of(cs, "K") \o Of(cs, "U") \o Of(cs, "A") \o Of(cs, "S")
Nth(cs, kind, n) == CHOOSE i \in 1..Len(cs) : cs[i].kind = kind /\ Cardinality({j \in 1..i : cs[j].kind = kind}) = n
Count(cs, kind) == Len(Of(cs, kind))
Can(cs, e) == e.n <= Count(cs, e.kind) /\ e.n >= 1 /\ (e.op = "swap" => e.n < Count(cs, e.kind)) /\ (e.op \in {"unsign", "resign"} => cs[Nth(cs, e.kind, e.n)].sigs # <<>>)
              /\ (e.op \in {"drop", "swap"} => e.kind # "K")
Edit(cs, e) ==
  LET i == IF e.n >= 1 /\ e.n <= Count(cs, e.kind) THEN Nth(cs, e.kind, e.n) ELSE 0 IN
  CASE e.op = "drop" -> RemoveAt(cs, i)
    [] e.op = "swap" -> LET j == Nth(cs, e.kind, e.n + 1) IN [cs EXCEPT ![i] = cs[j], ![j] = cs[i]]
    [] e.op = "unsign" -> [cs EXCEPT ![i].sigs = Tail(@)]
    [] e.op = "resign" -> [cs EXCEPT ![i].sigs = Append(@, Head(@))]
    [] e.op = "name" -> Grouped(cs \o <<[kind |-> "U", pos |-> 90 + e.n, sigs |-> <<>>]>>)
    [] OTHER -> cs
RECURSIVE Edits(_, _)
Edits(cs, es) == IF es = <<>> THEN cs ELSE Edits(Edit(cs, Head(es)), Tail(es))
=============================================================================
