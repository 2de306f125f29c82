----------------------------- MODULE TraceArmor -----------------------------
EXTENDS Armor, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i
If(c, s) == IF c THEN {s} ELSE {}
Ok(r) == r.res = "ok"
\* observed headers as a set of pairs
Heads(h) == {h[k] : k \in 1..Len(h)}
Same(o, g) == If(g.type # o.type, "wrong kind of armored data") \cup If(g.part # o.part \/ g.total # o.total, "wrong part numbers")
              \cup If(g.data # o.data, "wrong data") \cup If(Heads(g.heads) # Heads(o.heads), "wrong header values")
\* what the writer may write: the header lines in any order, lines up to 76 characters
Written(o, t) ==
  LET ls == SplitLF(t, <<>>)
      n == Len(ls)
      h == Len(o.heads)
      e == First({k \in 1..n : ls[k] = <<>>} \cup {n})
  IN IF n < h + 4 \/ e # h + 2 \/ t[Len(t)] # LF THEN {"not the layout of armored text"}
     ELSE If(ls[1] # HeadLine(o), "wrong header line")
          \cup If({ls[k] : k \in 2..(h + 1)} # {Head2(o.heads[k]) : k \in 1..h}, "wrong armor headers")
          \cup If(FlattenSeq(SubSeq(ls, e + 1, n - 2)) # Radix64(o.data), "wrong radix-64 body")
          \cup If(\E k \in (e + 1)..(n - 2) : Len(ls[k]) \notin 1..76, "line too long")
          \cup If(ls[n - 1] # CrcLine(o.data), "wrong checksum")
          \cup If(ls[n] # TailLine(o), "wrong tail line")
BodyLen(o) == Len(Join(Chunk(Radix64(o.data), 64), <<LF>>))
Bad(r) ==
  CASE r.kind = "write" -> IF ~Ok(r) THEN {"data could not be armored"}
                           ELSE Written(r.o, r.text) \cup If(r.same # TRUE, "armored data changed")
    [] r.kind = "read" -> IF ~Ok(r) THEN {"armored text refused"} ELSE Same(r.o, r.got)
    [] r.kind = "alter" ->
         IF ~Ok(r) THEN {}
         ELSE IF r.at < r.seg THEN {"text with an altered header line accepted"}
         ELSE IF r.at >= r.seg + BodyLen(r.o) THEN {"text with an altered checksum or tail line accepted"}
         ELSE If(r.got.data # r.o.data, "altered data accepted")
    [] r.kind = "edit" -> If(Ok(r) /\ r.got.data # r.o.data, "altered data accepted")
    [] r.kind = "cut" -> If(Ok(r), "text that is cut short accepted")
    [] r.kind = "tail" -> If(Ok(r), "tail line of something else accepted")
    [] r.kind = "sum" -> If(Ok(r), "wrong checksum accepted")
    [] OTHER -> {"unknown record"}
TInit == i = 1
TNext == /\ i <= Len(Trace)
         /\ LET b == Bad(Trace[i]) \cup If(Trace[i].res = "hang", "no answer") IN b # {} => PrintT(<<"BAD", i, b>>)
         /\ i' = i + 1
         /\ i' > Len(Trace) => PrintT(<<"DONE", Len(Trace)>>)
=============================================================================
