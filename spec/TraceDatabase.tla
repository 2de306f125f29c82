--------------------------- MODULE TraceDatabase ---------------------------
EXTENDS Database, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i
If(c, s) == IF c THEN {s} ELSE {}
Is(q, S) == Rng(q) = S /\ Len(q) = Cardinality(S)
Start(r) == [g \in Dom(r.rings) |-> [secret |-> r.rings[g].secret, readonly |-> r.rings[g].readonly, keys |-> Rng(r.rings[g].keys)]]
Regs(ops) == SelectSeq(ops, LAMBDA o : o.do = "register")
TextsOf(r, x) == LET j == CHOOSE j \in Dom(r.texts) : r.texts[j].k = x.k /\ r.texts[j].v = x.v IN r.texts[j].t
\* the answer, keyring by keyring
RECURSIVE Fits(_, _)
Fits(q, sets) == IF sets = <<>> THEN q = <<>>
                 ELSE LET S == Head(sets)  n == Cardinality(S) IN
                      Len(q) >= n /\ Is(SubSeq(q, 1, n), S) /\ Fits(SubSeq(q, n + 1, Len(q)), Tail(sets))
Expected(r, rings, order, op) ==
  [p \in Dom(order) |-> LET g == rings[order[p]] IN
     {[k |-> x.k, v |-> x.v, secret |-> g.secret] : x \in {x \in g.keys : Matches(x, [by |-> op.by, k |-> op.k, text |-> op.text, term |-> op.codes], IF op.text THEN TextsOf(r, x) ELSE <<>>)}}]
Kind(op) == IF op.secret THEN " of secret keys" ELSE " of public keys"
History(r) ==
  LET ops == r.ops
      order(j) == OrderOf(Regs(SubSeq(ops, 1, j)))
      RECURSIVE After(_)
      After(j) == IF j = 0 THEN Start(r) ELSE IF ops[j].do \in {"register", "search", "list"} THEN After(j - 1) ELSE Changed(After(j - 1), order(j), ops[j])
      one(j) == LET op == ops[j]  o == r.seen[j]  before == After(j - 1)  now == After(j)  t == Target(before, order(j), op.secret) IN
        If(o.res = "hang", "never ends")
        \cup (CASE op.do = "register" -> If(o.res # "ok", "does not open")
                [] op.do = "search" -> IF o.res # "ok" THEN {"search fails"}
                     ELSE LET e == Expected(r, before, order(j), op) IN
                          (IF Fits(o.found, e) THEN {}
                           ELSE If(~(Rng(o.found) \subseteq UNION Rng(e)), "finds others") \cup If(~(UNION Rng(e) \subseteq Rng(o.found)), "misses keys") \cup If(Rng(o.found) = UNION Rng(e), "finds in another order or twice"))
                [] op.do = "list" -> IF o.res # "ok" THEN {"listing fails"}
                     ELSE LET e == [p \in Dom(order(j)) |-> {x.k : x \in before[order(j)[p]].keys}] IN If(~Fits(o.listed, e), "lists others or in another order")
                [] OTHER -> IF t = 0 THEN {} ELSE LET may == DoesChange(before, order(j), op) IN
                     If(may /\ o.res # "ok", "refuses " \o op.do \o Kind(op)) \cup If(~may /\ o.res = "ok", "accepts " \o op.do \o Kind(op)))
        \cup UNION {If(~Is(o.files[g], now[g].keys), IF g = t /\ op.do \notin {"search", "register", "list"} THEN "wrong keyring after " \o op.do \o Kind(op) ELSE "another keyring changed by " \o op.do) : g \in Dom(now)}
  IN UNION {one(j) : j \in Dom(ops)}
\* opening: what is served and what becomes of the file
Opening(r) ==
  LET o == r.open
      want == CASE o.prefix = "gnupg-kbx:" -> "refused"
                [] o.file = "missing" -> IF o.force THEN "created" ELSE "refused"
                [] o.file = "kbx" -> IF o.prefix = "" THEN "refused" ELSE "any"
                [] o.file = "dbm" -> IF o.prefix = "" THEN "served" ELSE "any"
                [] OTHER -> "served"
  IN CASE want = "any" -> If(~r.same, "file changed by opening")
       [] want = "refused" -> If(r.opened = "ok", "opens " \o o.file) \cup If(~r.same, "file changed by opening")
       [] want = "created" -> If(r.opened # "ok", "does not create") \cup If(r.opened = "ok" /\ (Len(r.served) # 0 \/ ~r.usable), "creates something else")
       [] want = "served" -> If(r.opened # "ok", "does not open " \o o.file) \cup If(r.opened = "ok" /\ ~Is(r.served, Rng(r.holds)), "serves something else") \cup If(~r.same, "file changed by opening")
\* the user's own keyrings: the secret one comes first; what is missing is
\* only made when asked for
Defaulted(r) ==
  LET o == r.defaults
      force == o.force /\ o.by = "method"
      readonly == o.readonly /\ o.by = "method"
      ok == force \/ (o.sec # "missing" /\ o.pub # "missing")
      sec == IF o.sec = "keys" THEN {"a", "b"} ELSE {}
      pub == IF o.pub = "keys" THEN {"c", "b"} ELSE {}
      new(f, S, k) == IF readonly THEN S ELSE S \cup {k}
  IN IF ~ok THEN If(r.opened = "ok", "opens missing files") \cup If(r.made # <<>>, "makes files unasked")
     ELSE If(r.opened # "ok", "does not open")
          \cup (IF r.opened # "ok" THEN {} ELSE
                 If(~Fits(r.listed, <<sec, pub>>), "lists others or in another order")
                 \cup If(r.added # [j \in 1..2 |-> ~readonly], IF readonly THEN "changes a read-only keyring" ELSE "refuses a key")
                 \cup If(~Is(r.secring, new("sec", sec, "d")), "wrong secret keys") \cup If(~Is(r.pubring, new("pub", pub, "d")), "wrong public keys"))
Bad(r) == IF r.res # "ok" THEN {"fails: " \o r.res} ELSE IF r.kind = "open" THEN Opening(r) ELSE IF r.kind = "defaults" THEN Defaulted(r) ELSE History(r)
TInit == i = 1
TNext == /\ i <= Len(Trace)
         /\ LET b == Bad(Trace[i]) IN b # {} => PrintT(<<"BAD", i, b>>)
         /\ i' = i + 1
         /\ i' > Len(Trace) => PrintT(<<"DONE", Len(Trace)>>)
=============================================================================
