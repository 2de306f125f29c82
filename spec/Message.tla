------------------------------ MODULE Message ------------------------------
(***************************************************************************)
(* OpenPGP messages (RFC 4880, section 11.3): the packets a composition of *)
(* layers is written as, and which packets are a message.  A layer is      *)
(*   [k |-> "comp"]  [k |-> "sig", op, ids]  [k |-> "enc", keys, ip]       *)
(* with ids the signers, op one-pass; a composition is a sequence of them, *)
(* outermost first, around one literal.  A packet is a record [t, id,      *)
(* last, in]; `in' are the packets inside of it.                           *)
(***************************************************************************)
EXTENDS Naturals, Sequences, SequencesExt
Pk(t, id, last, in) == [t |-> t, id |-> id, last |-> last, in |-> in]
Lit == Pk("lit", 0, 0, <<>>)
Comp(in) == Pk("comp", 0, 0, in)
Sig(id) == Pk("sig", id, 0, <<>>)
Ops(id, last) == Pk("ops", id, last, <<>>)
Esk(kind) == Pk(kind, 0, 0, <<>>)
Data(ip, in) == Pk(IF ip THEN "seip" ELSE "sed", 0, 0, in)
Mark == Pk("mark", 0, 0, <<>>)

LComp == [k |-> "comp", op |-> FALSE, ids |-> <<>>, keys |-> <<>>]
LSig(op, ids) == [k |-> "sig", op |-> op, ids |-> ids, keys |-> <<>>]
LEnc(ip, keys) == [k |-> "enc", op |-> ip, ids |-> <<>>, keys |-> keys]

\* the packets of layers L around a literal
RECURSIVE Write(_)
Write(L) ==
  IF L = <<>> THEN <<Lit>>
  ELSE LET h == Head(L)  rest == Write(Tail(L)) IN
    CASE h.k = "comp" -> <<Comp(rest)>>
      [] h.k = "enc" -> [j \in 1..Len(h.keys) |-> Esk(h.keys[j])] \o <<Data(h.op, rest)>>
      [] h.op -> [j \in 1..Len(h.ids) |-> Ops(h.ids[j], IF j = Len(h.ids) THEN 1 ELSE 0)] \o rest
                 \o Reverse([j \in 1..Len(h.ids) |-> Sig(h.ids[j])])
      [] OTHER -> [j \in 1..Len(h.ids) |-> Sig(h.ids[j])] \o rest

\* adjacent layers of plain signatures are one
RECURSIVE Norm(_)
Norm(L) ==
  IF Len(L) < 2 THEN L
  ELSE IF L[1].k = "sig" /\ L[2].k = "sig" /\ ~L[1].op /\ ~L[2].op
       THEN Norm(<<LSig(FALSE, L[1].ids \o L[2].ids)>> \o SubSeq(L, 3, Len(L)))
       ELSE <<L[1]>> \o Norm(Tail(L))

EskType(t) == t \in {"pk", "sk"}
DataType(t) == t \in {"seip", "sed"}
RECURSIVE Clean(_)
Clean(s) == LET q == SelectSeq(s, LAMBDA p : p.t # "mark") IN [j \in 1..Len(q) |-> [q[j] EXCEPT !.in = Clean(@)]]
\* the grammar, for packets without markers
RECURSIVE IsMsg(_)
IsMsg(s) ==
  /\ s # <<>>
  /\ \/ s = <<Lit>>
     \/ Len(s) = 1 /\ s[1].t = "comp" /\ IsMsg(s[1].in)
     \/ /\ DataType(s[Len(s)].t) /\ \A j \in 1..(Len(s) - 1) : EskType(s[j].t)
        /\ IsMsg(s[Len(s)].in)
     \/ s[1].t = "sig" /\ IsMsg(Tail(s))
     \/ /\ s[1].t = "ops" /\ Len(s) > 2 /\ s[Len(s)] = Sig(s[1].id)
        /\ s[1].last = 0 => s[2].t = "ops"
        /\ IsMsg(SubSeq(s, 2, Len(s) - 1))
Legal(s) == IsMsg(Clean(s))
\* a flag that announces another one-pass signature where there is none
RECURSIVE FlagOff(_)
FlagOff(s) == \/ \E j \in 1..Len(s) : s[j].t = "ops" /\ s[j].last = 0 /\ (j = Len(s) \/ s[j + 1].t # "ops")
              \/ \E j \in 1..Len(s) : s[j].in # <<>> /\ FlagOff(s[j].in)
Open(s) == FlagOff(Clean(s))

\* the layers of a legal message
RECURSIVE LayersOf(_)
LayersOf(s) ==
  LET n == Len(s) IN
  CASE s[1].t = "lit" -> <<>>
    [] s[1].t = "comp" -> <<LComp>> \o LayersOf(s[1].in)
    [] s[1].t = "sig" -> LET m == CHOOSE j \in 1..n : s[j].t # "sig" /\ \A i \in 1..(j - 1) : s[i].t = "sig" IN
                         <<LSig(FALSE, [j \in 1..(m - 1) |-> s[j].id])>> \o LayersOf(SubSeq(s, m, n))
    [] s[1].t = "ops" -> LET m == CHOOSE j \in 1..n : s[j].last = 1 /\ \A i \in 1..(j - 1) : s[i].last = 0 IN
                         <<LSig(TRUE, [j \in 1..m |-> s[j].id])>> \o LayersOf(SubSeq(s, m + 1, n - m))
    [] OTHER -> <<LEnc(s[n].t = "seip", [j \in 1..(n - 1) |-> s[j].t])>> \o LayersOf(s[n].in)
Layers(s) == LayersOf(Clean(s))
=============================================================================
