---------------------------- MODULE TraceDeflate ----------------------------
EXTENDS Deflate, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i
If(c, s) == IF c THEN {s} ELSE {}
Bz == <<66, 90, 104, 49, 49, 65, 89, 38, 83, 89, 4, 194, 119, 120, 0, 0, 0, 1, 0, 56, 0, 32, 0, 33, 143, 80, 102, 8, 187, 139, 185, 34, 156, 40, 72, 2, 97, 59, 188, 0>>
BzData == <<97, 98, 97, 98, 97, 98, 99>>
Means(a, s) == CASE a = 0 -> R("ok", 0, s)
                 [] a = 1 -> Inflate(s)
                 [] a = 2 -> Unzlib(s)
                 [] a = 3 -> IF s = Bz THEN R("ok", 0, BzData) ELSE R("bad", 0, <<>>)
Written(r) ==
  If(r.res # "ok", "cannot compress: " \o r.res)
  \cup (IF r.res # "ok" THEN {} ELSE
        If(~r.peer, "not a standard stream of the data")
        \cup If(r.back # "same", "decompressed to something else: " \o r.back)
        \cup If(r.short /\ r.alg \in {1, 2} /\ (LET m == Means(r.alg, r.stream) IN m.st # "ok" \/ m.out # r.data), "stream not of this format"))
One(a, s, o) ==
  LET m == Means(a, s) IN
  CASE m.st = "ok" -> If(o.res # "ok", "valid stream refused") \cup If(o.res = "ok" /\ o.out # m.out, "valid stream decompressed to something else")
    [] m.st \in {"short"} -> If(o.res = "ok", "truncated stream accepted")
    [] m.st = "bad" -> If(o.res = "ok", "damaged stream accepted")
    [] m.st = "more" -> If(o.res = "ok" /\ o.out # m.out, "stream with more octets after it decompressed to something else")
    [] OTHER -> {}
Bad(r) == IF r.op \in {"write", "message"} THEN Written(r) ELSE UNION {One(r.alg, r.streams[k], r.outs[k]) : k \in 1..Len(r.streams)}
TInit == i = 1
TNext == /\ i <= Len(Trace)
         /\ LET b == Bad(Trace[i]) IN b # {} => PrintT(<<"BAD", i, b>>)
         /\ i' = i + 1
         /\ i' > Len(Trace) => PrintT(<<"DONE", Len(Trace)>>)
=============================================================================
