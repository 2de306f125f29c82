--------------------------- MODULE TraceSigAttrs ---------------------------
EXTENDS SigAttrs, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i
If(c, s) == IF c THEN {s} ELSE {}
From(w) == [a \in Attrs |-> IF a \in Lists THEN w[a] ELSE w[a][1]]
Val(o) == IF o.a \in Lists THEN o.v ELSE o.v[1]
Plain(ops) == [j \in 1..Len(ops) |-> [a |-> ops[j].a, v |-> Val(ops[j])]]
\* attributes that read otherwise than stated
Off(want, got) == {a \in Attrs : From(got)[a] # want[a]}
Bad(r) ==
  LET ops == Plain(r.ops)
      St(j) == After(From(r.start), r.version, r.about, SubSeq(ops, 1, j))
      one(j) == LET o == ops[j]  may == May(St(j - 1), r.version, r.about, o.a, o.v)  off == Off(St(j), r.reads[j + 1]) IN
        If(may /\ r.did[j] # "ok", "assignment refused: " \o o.a) \cup If(~may /\ r.did[j] = "ok", "impossible assignment accepted: " \o o.a)
        \cup If(o.a \in off, "does not read as assigned: " \o o.a) \cup {"changed by another assignment: " \o a : a \in off \ {o.a}}
  IN IF r.res # "ok" THEN {"fails: " \o r.res}
     ELSE {"reads otherwise than written: " \o a : a \in Off(St(0), r.reads[1])}
          \cup UNION {one(j) : j \in 1..Len(ops)}
          \cup {"other packet than stated: " \o a : a \in Off(St(Len(ops)), r.peer)}
          \cup {"lost when serialised: " \o a : a \in Off(St(Len(ops)), r.again)}
          \cup If(~r.rest, "unknown statements lost")
TInit == i = 1
TNext == /\ i <= Len(Trace)
         /\ LET b == Bad(Trace[i]) IN b # {} => PrintT(<<"BAD", i, b>>)
         /\ i' = i + 1
         /\ i' > Len(Trace) => PrintT(<<"DONE", Len(Trace)>>)
=============================================================================
