------------------------------ MODULE TraceHkp ------------------------------
EXTENDS Hkp, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i
If(c, s) == IF c THEN {s} ELSE {}
Dom(q) == 1..Len(q)
Rng(q) == {q[j] : j \in Dom(q)}
LOOKUP == "pks/lookup"
\* the keys of the pool some of whose fingerprints or IDs are the same; g has a as a subkey
Called(k, form, x) ==
  IF form \in {"sub fp", "sub long", "sub short"} THEN x = "b"
  ELSE \/ x = k \/ (k = "a" /\ x = "g")
       \/ form = "short" /\ {k, x} \subseteq {"c", "d", "e", "f"}
       \/ form = "long" /\ {k, x} \subseteq {"e", "f"}
Fits(o) == {j \in Dom(o.keys) : Called(o.k, o.form, o.keys[j].k)}
\* a list of flags as a set
Seen(k) == [id |-> LowerAll(k.id), alg |-> k.alg, bits |-> k.bits, created |-> k.created, expires |-> k.expires, flags |-> Rng(k.flags), uids |-> [j \in Dom(k.uids) |-> [text |-> k.uids[j].text, created |-> k.uids[j].created, expires |-> k.uids[j].expires, flags |-> Rng(k.uids[j].flags)]]]
Results(s) == [j \in Dom(s.found) |-> Seen(s.found[j])]
Ids(q) == [j \in Dom(q) |-> q[j].id]
Uids(q) == [j \in Dom(q) |-> [m \in Dom(q[j].uids) |-> q[j].uids[m].text]]
Parsed(o, s) ==
  LET w == Index(o.text)  g == Results(s) IN
  IF s.res # "ok" THEN {"answer refused"}
  ELSE IF Len(w) # Len(g) THEN {"not one result for each key"}
  ELSE If(Ids(w) # Ids(g), "wrong key IDs") \cup If(Uids(w) # Uids(g), "wrong identities")
       \cup If(Ids(w) = Ids(g) /\ Uids(w) = Uids(g) /\ w # g, "wrong times, sizes or flags")
At(r, q, what) == q.scheme = Where(r.base, what).scheme /\ q.port = Where(r.base, what).port /\ q.host = r.base.host /\ q.path = (IF r.base.path = "" THEN "/" ELSE r.base.path) \o what
\* exactly one request, of this kind
Request(r, o, s, good, method, what) ==
  IF Len(s.sent) # 1 THEN {"not one request"}
  ELSE LET q == s.sent[1] IN
       If(~At(r, q, what), "asks elsewhere") \cup If(q.method # method, "asks in another way") \cup If(~good, "asks for something else")
Got(o, s) ==
  IF o.status >= 400 THEN If(s.res = "ok", "error answer taken for a success")
  ELSE IF o.shape \in {"empty", "html", "cut", "garbled"} \/ Fits(o) = {} THEN If(s.res = "ok", "something else taken for the key")
  ELSE If(s.res # "ok", "key not returned") \cup If(s.res = "ok" /\ ~(\E j \in Fits(o) : s.got = o.keys[j]), "another key returned")
One(r, o, s) ==
  If(s.res = "hang", "never ends") \cup
  CASE o.do = "search" -> (IF o.status >= 400 THEN If(s.res = "ok", "error answer taken for a success") ELSE Parsed(o, s))
                          \cup Request(r, o, s, s.sent # <<>> /\ AsksIndex(s.sent[1].query, o.terms), "GET", LOOKUP)
    [] o.do \in {"get", "found"} -> Got(o, s) \cup Request(r, o, s, s.sent # <<>> /\ AsksKey(s.sent[1].query, s.id), "GET", LOOKUP)
    [] o.do = "submit" ->
         IF o.secret
         THEN If(s.leaks, "sends secret keys") \cup If(s.res = "ok" /\ s.posted # [k |-> o.k, v |-> o.v], "sends something else")
         ELSE If(o.status >= 400 /\ s.res = "ok", "error answer taken for a success") \cup If(o.status < 400 /\ s.res # "ok", "fails")
              \cup If(s.posted # [k |-> o.k, v |-> o.v], "sends something else")
              \cup Request(r, o, s, s.sent # <<>> /\ (HasOption(s.sent[1].body, NM) <=> o.nm), "POST", "pks/add")
Bad(r) == UNION {One(r, r.ops[j], r.seen[j]) : j \in Dom(r.ops)}
TInit == i = 1
TNext == /\ i <= Len(Trace)
         /\ LET b == Bad(Trace[i]) IN b # {} => PrintT(<<"BAD", i, b>>)
         /\ i' = i + 1
         /\ i' > Len(Trace) => PrintT(<<"DONE", Len(Trace)>>)
=============================================================================
