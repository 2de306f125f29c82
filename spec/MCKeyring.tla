----------------------------- MODULE MCKeyring -----------------------------
(***************************************************************************)
(* Two objects for the same keyring file change it through tables of where *)
(* each key is.  Each operation is one step: the lock is another matter.   *)
(*   "suffix"  the table knows keys by their short key IDs                 *)
(*   "stale"   the table is read when the keyring is opened, and after     *)
(*             one's own changes                                           *)
(*   "tail"    deleting removes all that follows                           *)
(*   "twice"   adding does not look whether the key is there               *)
(*   "parts"   updating replaces the primary key packet alone              *)
(*   "subs"    subkeys are taken for keys                                  *)
(*   "shift"   offsets stay when an earlier key changes its length         *)
(***************************************************************************)
EXTENDS Keyring
CONSTANTS Design, Pool, N
VARIABLES file, tab, ring, ok, n
vars == <<file, tab, ring, ok, n>>
Obj == {1, 2}
T(k, p, v) == [k |-> k, p |-> p, v |-> v]
\* contents differ in length
Packets(k, v) == <<T(k, "key", v)>> \o [i \in 1..v |-> T(k, "part", v)] \o (IF k = "g" THEN <<T("a", "sub", v)>> ELSE <<>>)
Starts(f) == {i \in 1..Len(f) : f[i].p = "key" \/ (Design = "subs" /\ f[i].p = "sub")}
Name(k) == IF Design = "suffix" THEN ShortId(k) ELSE k
End(f, s) == LET L == {i \in Starts(f) : i > s} IN IF L = {} THEN Len(f) ELSE (CHOOSE i \in L : \A j \in L : i <= j) - 1
Read(f) == {[name |-> Name(f[s].k), s |-> s, e |-> End(f, s)] : s \in Starts(f)}
\* only the last entry of a name stays
Table(f) == {x \in Read(f) : Design # "suffix" \/ \A y \in Read(f) : y.name = x.name => y.s <= x.s}
View(o) == IF Design \in {"stale", "shift"} THEN tab[o] ELSE Table(file)
Entry(t, k) == {x \in t : x.name = Name(k)}
Cut(f, s, e, new) == SubSeq(f, 1, s - 1) \o new \o (IF e < Len(f) THEN SubSeq(f, e + 1, Len(f)) ELSE <<>>)
Init == file = <<>> /\ tab = [o \in Obj |-> {}] /\ ring = {} /\ ok = TRUE /\ n = 0
Ops == [do : {"add", "update", "delete"}, k : Pool, v : {1, 2}]
Bound(x) == x.s <= Len(file) /\ x.e <= Len(file)
Do(o, op) ==
  LET t == View(o)  es == Entry(t, op.k)  there == es # {}
      x == CHOOSE y \in es : TRUE
      ref == CASE op.do = "add" -> there /\ Design # "twice" [] OTHER -> ~there
      new == CASE ref -> file
               [] op.do = "add" -> file \o Packets(op.k, op.v)
               [] ~Bound(x) -> <<>>
               [] op.do = "update" -> Cut(file, x.s, IF Design = "parts" THEN x.s ELSE x.e, Packets(op.k, op.v))
               [] op.do = "delete" -> Cut(file, x.s, IF Design = "tail" THEN Len(file) ELSE x.e, <<>>)
  IN /\ file' = new
     /\ tab' = IF Design = "shift" THEN [p \in Obj |-> IF ref THEN tab[p] ELSE IF op.do = "delete" THEN {y \in tab[p] : y.name # Name(op.k)} ELSE tab[p] \cup {y \in Table(new) : y.name = Name(op.k)}]
               ELSE [tab EXCEPT ![o] = Table(new)]
     /\ ok' = (Allowed(ring, op, FALSE) <=> ~ref)
     /\ ring' = Apply(ring, op, FALSE)
     /\ n' = n + 1
Next == n < N /\ \E o \in Obj, op \in Ops : Do(o, op)
Spec == Init /\ [][Next]_vars
\* what a reader of the file finds
Keys1(f) == {i \in 1..Len(f) : f[i].p = "key"}
Last(f, s) == LET L == {i \in Keys1(f) : i > s} IN IF L = {} THEN Len(f) ELSE (CHOOSE i \in L : \A j \in L : i <= j) - 1
Exact == /\ {[k |-> file[s].k, v |-> file[s].v] : s \in Keys1(file)} = ring
         /\ Cardinality(Keys1(file)) = Cardinality(ring)
         /\ \A s \in Keys1(file) : SubSeq(file, s, Last(file, s)) = Packets(file[s].k, file[s].v)
Refuses == ok
\* what each object finds
Found == \A o \in Obj, k \in Pool :
           LET es == Entry(View(o), k) IN
           IF Has(ring, k) THEN es # {} /\ \A x \in es : Bound(x) /\ \E y \in ring : y.k = k /\ SubSeq(file, x.s, x.e) = Packets(k, y.v)
           ELSE es = {}
=============================================================================
