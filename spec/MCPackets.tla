----------------------------- MODULE MCPackets -----------------------------
(* Reader and writer of packet bodies as a machine: fields are written,    *)
(* the octets are read back field by field by the grammar of the standard, *)
(* for the kinds whose layout depends on the values (lengths, versions).   *)
EXTENDS Packets, FiniteSets
CONSTANTS Vals, MaxM, PrefixLen
VARIABLES p, rest, got, pc
vars == <<p, rest, got, pc>>
Ns == {<<>>} \cup {<<v>> : v \in Vals \ {0}} \cup {<<v, w>> : v \in Vals \ {0}, w \in Vals}
NMpi == [a \in {1, 2, 3, 16, 17, 20} |-> CASE a \in {1, 2, 3} -> 2 [] a = 17 -> 4 [] OTHER -> 3]
Pubs == {[t |-> 6, version |-> v, time |-> <<0, 1, 2, 3>>, days |-> d, algo |-> a, mpis |-> m] :
          v \in {3, 4}, d \in {0, 258}, a \in {1, 16}, m \in [1..2 -> Ns]}
PubsOk == {[q EXCEPT !.mpis = IF q.algo = 16 THEN Append(@, <<7>>) ELSE @] : q \in Pubs}
Lits == {[t |-> 11, fmt |-> f, name |-> n, time |-> <<1, 2, 3, 4>>, text |-> x] :
          f \in {98, 117}, n \in {<<>>, <<97>>, <<233, 8364>>, <<56448, 65>>}, x \in {<<>>, <<10, 13>>, <<233>>}}
Init == /\ p \in PubsOk \cup Lits
        /\ rest = (IF p.t = 11 /\ ~PrefixLen
                   THEN [Body(p) EXCEPT ![2] = Len(p.name)] ELSE Body(p))
        /\ got = <<>> /\ pc = 0
Take(n) == /\ Len(rest) >= n /\ got' = Append(got, SubSeq(rest, 1, n))
           /\ rest' = SubSeq(rest, n + 1, Len(rest)) /\ pc' = pc + 1 /\ UNCHANGED p
TakeMpi == /\ MpiReadable(rest) /\ got' = Append(got, MpiVal(rest))
           /\ rest' = MpiRest(rest) /\ pc' = pc + 1 /\ UNCHANGED p
\* the reader looks at the octets read so far only
PubStep == CASE pc = 0 -> Take(1) [] pc = 1 -> Take(4)
             [] pc = 2 -> Take(IF got[1][1] < 4 THEN 2 ELSE 0)
             [] pc = 3 -> Take(1)
             [] pc > 3 /\ pc < 4 + NMpi[got[4][1]] -> TakeMpi
             [] OTHER -> FALSE
LitStep == CASE pc = 0 -> Take(1) [] pc = 1 -> Take(1) [] pc = 2 -> Take(got[2][1])
             [] pc = 3 -> Take(4) [] pc = 4 -> Take(Len(rest)) [] OTHER -> FALSE
Next == IF p.t = 6 THEN PubStep ELSE LitStep
Spec == Init /\ [][Next]_vars
Done == IF p.t = 6 THEN pc = 4 + Len(p.mpis) ELSE pc = 5
FieldsKept == Done =>
  IF p.t = 6 THEN /\ rest = <<>>
                  /\ got = <<<<p.version>>, p.time, IF p.version < 4 THEN U2(p.days) ELSE <<>>, <<p.algo>>>> \o p.mpis
  ELSE got[3] = Utf8(p.name) /\ got[4] = p.time /\ got[5] = (IF p.fmt = 117 THEN Utf8(p.text) ELSE p.text)
=============================================================================
