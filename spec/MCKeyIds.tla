------------------------------ MODULE MCKeyIds ------------------------------
(***************************************************************************)
(* A key moves between representations: parsed, written again, unlocked,   *)
(* locked, converted to a public key; its creation time is kept as local   *)
(* wall-clock time.  Whatever happens, the digested octets stay those of   *)
(* the public fields it was read with.                                     *)
(***************************************************************************)
EXTENDS KeyIds, Integers
CONSTANTS Times, Change, Design
VARIABLES key, obj, steps
vars == <<key, obj, steps>>
\* time zones: offset before and after a change at Change (in units)
Zones == {<<0, 0>>, <<2, 1>>, <<1, 2>>, <<-3, -3>>}
Local(t, z) == IF t < Change THEN t + z[1] ELSE t + z[2]
\* wall clock back to time; fold tells the second occurrence
FromLocal(w, fold, z) ==
  LET a == w - z[1]  b == w - z[2] IN
  IF a < Change /\ b >= Change THEN (IF fold /\ Design # "wallclock" THEN b ELSE a)
  ELSE IF a < Change THEN a ELSE b
Fold(t, z) == LET a == Local(t, z) - z[1] IN t >= Change /\ a < Change
Keys == {[version |-> v, time |-> t, days |-> d, algo |-> 1, mpis |-> m] :
          v \in {3, 4}, t \in Times, d \in {0, 7}, m \in {<<<<200, 0, 0, 0, 0, 0, 0, 0, 1>>, <<3>>>>, <<<<9, 9>>, <<1, 0, 1>>>>}}
K4(k, t) == [k EXCEPT !.time = U4(t)]
Obj(k, z, sec) == [wall |-> Local(k.time, z), fold |-> Fold(k.time, z), zone |-> z, secret |-> sec, locked |-> TRUE,
                   prime |-> <<>>, public |-> ~sec]
Init == /\ key \in Keys /\ steps = 0
        /\ \E z \in Zones, sec \in BOOLEAN : obj = Obj(key, z, sec)
Time == FromLocal(obj.wall, obj.fold, obj.zone)
Unlock == obj.secret /\ ~obj.public /\ obj' = [obj EXCEPT !.locked = FALSE, !.prime = <<11>>] /\ UNCHANGED key
Lock == obj.secret /\ ~obj.public /\ obj' = [obj EXCEPT !.locked = TRUE, !.prime = <<>>] /\ UNCHANGED key
Convert == obj.secret /\ obj' = [obj EXCEPT !.public = TRUE, !.prime = <<>>] /\ UNCHANGED key
Rewrite == obj' = [Obj([key EXCEPT !.time = Time], obj.zone, obj.secret) EXCEPT !.public = obj.public] /\ UNCHANGED key
Next == steps < 4 /\ steps' = steps + 1 /\ (Unlock \/ Lock \/ Convert \/ Rewrite)
Spec == Init /\ [][Next]_vars
Shown == LET k == [K4(key, 0) EXCEPT !.time = U4(Time)] IN
         Preimage(k) \o (IF Design = "content" /\ obj.secret /\ ~obj.public THEN <<0>> ELSE <<>>)
                     \o (IF Design = "prime" THEN obj.prime ELSE <<>>)
SameDigest == Shown = Preimage(K4(key, key.time))
=============================================================================
