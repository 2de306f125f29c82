----------------------------- MODULE Subpackets -----------------------------
(***************************************************************************)
(* Signature subpackets (RFC 4880, 5.2.3.1 - 5.2.3.26): the octets of each *)
(* kind as a function of its fields, and the reading of an area.           *)
(* f.ty is the type, f.crit the critical flag and f.form the number of     *)
(* octets of its length.                                                   *)
(***************************************************************************)
EXTENDS Packets, Integers
TimeTypes == {2, 3, 9}
BoolTypes == {4, 7, 25}
ListTypes == {11, 21, 22}
FlagTypes == {23, 27, 30}
TextTypes == {24, 26, 28}
KnownTypes == TimeTypes \cup BoolTypes \cup ListTypes \cup FlagTypes \cup TextTypes \cup {5, 6, 10, 12, 16, 20, 29, 31, 32}
Bool(b) == IF b THEN 1 ELSE 0
Content(f) ==
  CASE f.ty \in TimeTypes -> f.time
    [] f.ty \in BoolTypes -> <<Bool(f.flag)>>
    [] f.ty = 5 -> <<f.depth, f.amount>>
    [] f.ty = 6 -> Utf8(f.text) \o <<0>>
    [] f.ty = 10 -> <<IF f.flag THEN 128 ELSE 0, f.algo>> \o f.fpr
    [] f.ty \in ListTypes -> f.list
    [] f.ty = 12 -> <<IF f.flag THEN 192 ELSE 128, f.algo>> \o f.fpr
    [] f.ty = 16 -> f.keyid
    [] f.ty = 20 -> LET n == Utf8(f.name) \o (IF f.ns = <<-1>> THEN <<>> ELSE <<64>> \o Utf8(f.ns))
                        v == IF f.flag THEN Utf8(f.value) ELSE f.value IN
                    <<IF f.flag THEN 128 ELSE 0, 0, 0, 0>> \o U2(Len(n)) \o U2(Len(v)) \o n \o v
    [] f.ty \in FlagTypes -> f.flags
    [] f.ty \in TextTypes -> Utf8(f.text)
    [] f.ty = 29 -> <<f.code>> \o Utf8(f.text)
    [] f.ty = 31 -> <<f.algo, f.hash>> \o f.digest
    [] f.ty = 32 -> Body(f.sig)
    [] OTHER -> f.content
SubOctets(f) == LET c == Content(f) IN SubLen(Len(c) + 1, f.form) \o <<f.ty + 128 * Bool(f.crit)>> \o c

\* the meaning of flags; absent ones are zero
Bit(flags, b) == flags # <<>> /\ (flags[1] \div b) % 2 = 1
FlagBits(f) == CASE f.ty = 23 -> <<Bit(f.flags, 128)>>
                 [] f.ty = 30 -> <<Bit(f.flags, 1)>>
                 [] f.ty = 27 -> <<Bit(f.flags, 1), Bit(f.flags, 2), Bit(f.flags, 4), Bit(f.flags, 8),
                                   Bit(f.flags, 16), Bit(f.flags, 32), Bit(f.flags, 128)>>

\* Reading one subpacket header at position i of an area: <<next, last, type, critical>>
\* or <<>> when it is empty or overruns the area
HeadAt(a, i) ==
  LET n == Len(a)
      o == a[i]
      h == IF o < 192 THEN 1 ELSE IF o = 255 THEN 5 ELSE 2 IN
  IF i + h - 1 > n THEN <<>>
  ELSE LET len == IF o < 192 THEN o
                  ELSE IF o = 255 THEN (IF a[i + 1] >= 128 THEN n + 1 ELSE Val(SubSeq(a, i + 1, i + 4)))
                  ELSE (o - 192) * 256 + a[i + 1] + 192
           s == i + h IN
       IF len = 0 \/ s + len - 1 > n THEN <<>>
       ELSE <<s + 1, s + len - 1, a[s] % 128, a[s] >= 128>>
\* the subpackets of an area, as <<type, critical, content>>, or <<<<-1>>>> after a bad one
RECURSIVE AreaFrom(_, _)
AreaFrom(a, i) == IF i > Len(a) THEN <<>>
                  ELSE LET h == HeadAt(a, i) IN
                       IF h = <<>> THEN <<<<-1>>>>
                       ELSE <<<<h[3], h[4], SubSeq(a, h[1], h[2])>>>> \o AreaFrom(a, h[2] + 1)
Area(a) == AreaFrom(a, 1)
AreaOk(a) == LET r == Area(a) IN r = <<>> \/ r[Len(r)] # <<-1>>
=============================================================================
