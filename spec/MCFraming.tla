----------------------------- MODULE MCFraming -----------------------------
EXTENDS Framing
CONSTANTS Strict, MaxPkts, Types, Lens, Exps, MinPart
VARIABLES mode, written, ind, strm, cut, rd
vars == <<mode, written, ind, strm, cut, rd>>

PartSeqs == {<<>>} \cup {<<e>> : e \in Exps} \cup (Exps \X Exps)
Forms == {[fmt |-> "new", parts |-> p, last |-> l] :
             p \in PartSeqs, l \in {1, 2, 5}}
         \cup {[fmt |-> "old", parts |-> <<>>, last |-> l] :
             l \in {0, 1, 2, 4}}

Init == /\ mode = "write" /\ written = <<>> /\ ind = FALSE /\ strm = <<>>
        /\ cut = FALSE /\ rd = R0(<<>>)
WritePacket(f, t, n) ==
  /\ mode = "write" /\ ~ind /\ Len(written) < MaxPkts
  /\ Legal(f, t, n, MinPart)
  /\ strm' = strm \o Frame(f, t, n)
  /\ written' = Append(written, <<f.fmt, t, n>>)
  /\ ind' = (f.fmt = "old" /\ f.last = 0)
  /\ UNCHANGED <<mode, cut, rd>>
Truncate(k) ==
  /\ mode = "write" /\ k < Size(strm) /\ ~cut
  /\ strm' = Take(strm, k) /\ cut' = TRUE
  /\ mode' = "read" /\ rd' = R0(strm') /\ UNCHANGED <<written, ind>>
StartRead == /\ mode = "write" /\ written # <<>>
             /\ mode' = "read" /\ rd' = R0(strm)
             /\ UNCHANGED <<written, ind, strm, cut>>
Read == /\ mode = "read" /\ rd.phase \notin {"done", "err"}
        /\ rd' = ReadStep(rd, Strict)
        /\ UNCHANGED <<mode, written, ind, strm, cut>>
\* cut near either end and around the header
Cuts == LET z == Size(strm) IN
        {k \in (0..8) \cup {z - 1, z - 2, z - 3, z - 4, z - 5} : k >= 0 /\ k < z}
Next == \/ \E t \in Types, n \in Lens, f \in Forms : WritePacket(f, t, n)
        \/ \E k \in Cuts : Truncate(k)
        \/ StartRead \/ Read
Spec == Init /\ [][Next]_vars

RoundTrip == (mode = "read" /\ ~cut) =>
               /\ rd.phase # "err"
               /\ rd.phase = "done" => rd.out = written
TruncationSound == (mode = "read" /\ cut /\ rd.phase = "done") =>
                     \/ IsPrefix(rd.out, written)
                     \/ ind
NoOverread == mode = "read" => Size(rd.s) <= Size(strm)
=============================================================================
