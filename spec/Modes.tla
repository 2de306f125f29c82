------------------------------- MODULE Modes --------------------------------
(***************************************************************************)
(* Block cipher modes as state machines over an uninterpreted block cipher.*)
(* m = [mode, bs, seg, iv] (lengths in octets); E and D are functions from *)
(* blocks to blocks.  State: reg, the feedback register; ks, keystream not *)
(* used yet; n, the number of counter blocks used; begun and ended, for    *)
(* the OpenPGP mode, whose output starts with its encrypted prefix and     *)
(* whose last part alone may be short.                                     *)
(***************************************************************************)
EXTENDS Naturals, Sequences, SequencesExt, Bitwise
XorSeq(a, b) == [i \in 1..Len(a) |-> a[i] ^^ b[i]]
Take(s, n) == SubSeq(s, 1, IF n < Len(s) THEN n ELSE Len(s))
Drop(s, n) == SubSeq(s, n + 1, Len(s))
Tail2(s) == SubSeq(s, Len(s) - 1, Len(s))
Zero(n) == [i \in 1..n |-> 0]
\* the big-endian counter block number i on top of the start value
RECURSIVE AddBlock(_, _, _)
AddBlock(b, i, pos) == IF pos = 0 THEN b
                       ELSE LET v == b[pos] + i IN AddBlock([b EXCEPT ![pos] = v % 256], v \div 256, pos - 1)
Ctr(m, i) == AddBlock(m.iv, i, m.bs)

\* feedback of `seg` octets at a time
RECURSIVE CfbRun(_, _, _, _, _, _)
CfbRun(m, seg, reg, data, dec, E) ==
  IF data = <<>> THEN [reg |-> reg, out |-> <<>>]
  ELSE LET d == Take(data, seg)  o == XorSeq(d, Take(E[reg], Len(d)))
           c == IF dec THEN d ELSE o
           r == CfbRun(m, seg, Drop(reg, Len(d)) \o c, Drop(data, Len(d)), dec, E)
       IN [reg |-> r.reg, out |-> o \o r.out]
RECURSIVE StreamRun(_, _, _, _)
StreamRun(m, st, data, E) ==
  IF data = <<>> THEN [st |-> st, out |-> <<>>]
  ELSE IF st.ks = <<>>
       THEN LET k == IF m.mode = "OFB" THEN E[st.reg] ELSE E[Ctr(m, st.n)] IN
            StreamRun(m, [st EXCEPT !.ks = k, !.reg = k, !.n = @ + 1], data, E)
       ELSE LET d == Take(data, Len(st.ks))
                r == StreamRun(m, [st EXCEPT !.ks = Drop(@, Len(d))], Drop(data, Len(d)), E)
            IN [st |-> r.st, out |-> XorSeq(d, st.ks) \o r.out]
RECURSIVE Blocks(_, _, _, _, _, _)
Blocks(m, reg, data, dec, E, D) ==
  IF data = <<>> THEN [reg |-> reg, out |-> <<>>]
  ELSE LET d == Take(data, m.bs)
           o == CASE m.mode = "ECB" -> IF dec THEN D[d] ELSE E[d]
                  [] OTHER -> IF dec THEN XorSeq(D[d], reg) ELSE E[XorSeq(d, reg)]
           r == Blocks(m, IF dec THEN d ELSE o, Drop(data, m.bs), dec, E, D)
       IN [reg |-> r.reg, out |-> o \o r.out]

\* OpenPGP's prefix: iv and its last two octets repeated, encrypted from zero
Prefix(m, E) == CfbRun(m, m.bs, Zero(m.bs), m.iv \o Tail2(m.iv), FALSE, E).out
Start(m, E) == [reg |-> IF m.mode = "OPENPGP" THEN Drop(Prefix(m, E), 2) ELSE m.iv,
                   ks |-> <<>>, n |-> 0, begun |-> FALSE, ended |-> FALSE]
Acceptable(m, st, data) ==
  CASE m.mode \in {"ECB", "CBC"} -> Len(data) % m.bs = 0
    [] m.mode = "CFB" -> Len(data) % m.seg = 0
    [] m.mode = "OPENPGP" -> ~(st.ended /\ Len(data) % m.bs # 0)
    [] OTHER -> TRUE
Call(m, st, data, dec, E, D) ==
  IF ~Acceptable(m, st, data) THEN [ok |-> FALSE, st |-> st, out |-> <<>>]
  ELSE CASE m.mode \in {"ECB", "CBC"} ->
              LET r == Blocks(m, st.reg, data, dec, E, D) IN [ok |-> TRUE, st |-> [st EXCEPT !.reg = r.reg], out |-> r.out]
         [] m.mode = "CFB" ->
              LET r == CfbRun(m, m.seg, st.reg, data, dec, E) IN [ok |-> TRUE, st |-> [st EXCEPT !.reg = r.reg], out |-> r.out]
         [] m.mode \in {"OFB", "CTR"} ->
              LET r == StreamRun(m, st, data, E) IN [ok |-> TRUE, st |-> r.st, out |-> r.out]
         [] OTHER ->
              LET r == CfbRun(m, m.bs, st.reg, data, dec, E) IN
              [ok |-> TRUE, st |-> [st EXCEPT !.reg = r.reg, !.begun = TRUE, !.ended = @ \/ Len(data) % m.bs # 0],
               out |-> (IF st.begun \/ dec THEN <<>> ELSE Prefix(m, E)) \o r.out]
RECURSIVE Calls(_, _, _, _, _, _)
Calls(m, st, parts, dec, E, D) ==
  IF parts = <<>> THEN <<>>
  ELSE LET r == Call(m, st, Head(parts), dec, E, D) IN <<r>> \o Calls(m, r.st, Tail(parts), dec, E, D)
=============================================================================
