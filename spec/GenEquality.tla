----------------------------- MODULE GenEquality -----------------------------
(* Every object with its nearest neighbours: the same kind, one field      *)
(* apart; and whatever comes next.                                         *)
EXTENDS Equality, SequencesExt, Json, IOUtils, TLC
PP == INSTANCE PacketPool
SP == INSTANCE SubpacketPool
Big == IOEnv.BIG = "1"
Near(f, g) == /\ DOMAIN f = DOMAIN g /\ f # g
              /\ \E k \in DOMAIN f : \A j \in DOMAIN f \ {k} : f[j] = g[j]
Least(a, b) == IF a < b THEN a ELSE b
Upto(s, n) == SubSeq(s, 1, Least(n, Len(s)))
Pos(n, want) == LET st == IF n <= want THEN 1 ELSE n \div want IN {k \in 1..n : k % st = 0}
\* one octet of one field changed
Plus(v, k) == [v EXCEPT ![k] = (@ + 1) % 256]
Spots(v) == {k \in {2, Len(v) - 19, Len(v) - 1, Len(v)} : k \in DOMAIN v}
Octetfields == {"keyid", "time", "hash2", "iv", "secret", "esk", "data", "salt"}
Tweaks(f) ==
  UNION {{[f EXCEPT ![k] = Plus(@, s)] : s \in Spots(f[k])} : k \in Octetfields \cap DOMAIN f}
  \cup (IF "mpis" \in DOMAIN f
        THEN UNION {{[f EXCEPT !.mpis[j] = Plus(@, s)] : s \in Spots(f.mpis[j]) \ {1}} : j \in DOMAIN f.mpis} ELSE {})
  \cup (IF "t" \in DOMAIN f /\ f.t \in {1, 3} THEN {[f EXCEPT !.version = @ + 1]} ELSE {})
  \cup (IF "usage" \in DOMAIN f /\ f.usage \in {254, 255} THEN {[f EXCEPT !.usage = 509 - @]}
        ELSE IF "usage" \in DOMAIN f /\ f.usage \in 1..13 THEN LET c == IF f.usage \in 1..4 THEN (IF f.usage = 3 THEN 4 ELSE 3) ELSE IF f.usage = 9 THEN 7 ELSE 9 IN {[f EXCEPT !.usage = c, !.cipher = c]} ELSE {})
Tweaked(what, f) ==
  IF what \in {"packet", "signature"} /\ (f.t # 2 => Len(Body(f)) > 0) /\ f.t \notin {10, 20, 60} THEN SetToSeq(Tweaks(f)) ELSE <<>>
\* groups of one list
Groups(what, A, want, width) ==
  LET n == Len(A)
      ps == SetToSeq(Pos(n, want)) IN
  [j \in 1..Len(ps) |->
     LET p == A[ps[j]]
         others == Upto(SelectSeq(A, LAMBDA q : Near(p, q)), width)
         more == SelectSeq(<<A[1], A[n], A[1 + ((ps[j] * 7) % n)], A[1 + (ps[j] % n)]>>, LAMBDA q : q # p) IN
     [what |-> what, items |-> <<p>> \o others \o more \o (IF j % 4 = 1 \/ "usage" \in DOMAIN p \/ ("mpis" \in DOMAIN p /\ Len(p.mpis) > 1 /\ p.t = 2) THEN Tweaked(what, p) ELSE <<>>)]]
Short(A) == SelectSeq(A, LAMBDA p : Len(Body(p)) < 400)
W == IF Big THEN 400 ELSE 25
Pk(S) == Groups("packet", Short(SetToSeq(S)), W, IF Big THEN 40 ELSE 16)
Packets_ == Pk(PP!T1) \o Pk(PP!T2) \o Pk(PP!T3) \o Pk(PP!T4) \o Pk(PP!Pubs(6)) \o Pk(PP!Pubs(14)) \o Pk(PP!SecsF(5)) \o Pk(PP!SecsF(7))
            \o Pk(PP!T8) \o Pk(PP!T9) \o Pk(PP!T10) \o Pk(PP!T11) \o Pk(PP!T12) \o Pk(PP!T13) \o Pk(PP!TCo) \o Pk(PP!T17) \o Pk(PP!T18)
            \o Pk(PP!T19) \o Pk(PP!T63) \o Pk(PP!TUn)
            \o Pk({[t |-> t, data |-> d] : t \in {9, 10, 19, 20, 60}, d \in {PP!R(20, 1), PP!R(20, 2)}})
Su(T) == Groups("sub", SelectSeq(SP!All, LAMBDA f : f.ty \in T /\ Len(Content(f)) < 400), W, IF Big THEN 30 ELSE 12)
Subs_ == FoldLeft(LAMBDA acc, t : acc \o Su({t}), <<>>, SetToSeq(KnownTypes \cup {0, 1, 8, 100, 110})) \o Su(0..127)
Notes == Groups("notation", SelectSeq(SP!All, LAMBDA f : f.ty = 20 /\ ~f.crit /\ f.form = 1), W * 2, 16)
Revs == Groups("revkey", SelectSeq(SP!All, LAMBDA f : f.ty = 12 /\ ~f.crit /\ f.form = 1), W, 20)
Sigs == Groups("signature", Short(SetToSeq(PP!T2)), W * 2, 16)
S2s == Groups("s2k", SetToSeq(PP!S2Ks \cup PP!Gnu), 100, 30)
Atts == Groups("attribute", SelectSeq(SetToSeq(PP!Subs), LAMBDA s : Len(s.body) < 400), 100, 30)
All == Packets_ \o Subs_ \o Notes \o Revs \o Sigs \o S2s \o Atts
Keyed == LET A == All IN
  [i \in 1..Len(A) |->
     [what |-> A[i].what, items |-> A[i].items, octs |-> [j \in 1..Len(A[i].items) |-> Octs(A[i].what, A[i].items[j])],
      key |-> "equal " \o A[i].what \o " " \o ToString(i)]]
ASSUME ndJsonSerialize(IOEnv.GEN_OUT, Keyed)
VARIABLE x
Init == x = 0
Next == UNCHANGED x
=============================================================================
