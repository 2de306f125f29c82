----------------------------- MODULE MCEquality -----------------------------
(* Objects of two kinds are made, copied and altered; the relation of a    *)
(* design decides which are equal.                                         *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Design, MaxObjs, MaxOps
VARIABLES objs, ops
vars == <<objs, ops>>
Kinds == {"base", "derived"}
Vals == {0, 1}
\* a derived object has one more field; `read` is what it was read from
Fields(k) == IF k = "base" THEN {1, 2} ELSE {1, 2, 3}
Obj == UNION {[kind : {k}, f : [Fields(k) -> Vals]] : k \in Kinds}
Make(o) == Len(objs) < MaxObjs /\ objs' = Append(objs, [o |-> o, read |-> o.f, id |-> Len(objs) + 1])
Copy(i) == Len(objs) < MaxObjs /\ objs' = Append(objs, [objs[i] EXCEPT !.id = Len(objs) + 1])
Alter(i, k, v) == objs' = [objs EXCEPT ![i].o.f[k] = v]
Init == objs = <<>> /\ ops = 0
Next == /\ ops < MaxOps /\ ops' = ops + 1
        /\ \/ \E o \in Obj : Make(o)
           \/ \E i \in DOMAIN objs : Copy(i)
           \/ \E i \in DOMAIN objs : \E k \in Fields(objs[i].o.kind), v \in Vals : Alter(i, k, v)
Spec == Init /\ [][Next]_vars
Same(a, b) == a.o = b.o
Eq(a, b) ==
  CASE Design = "good" -> a.o = b.o
    [] Design = "forgets" -> a.o.kind = b.o.kind /\ \A k \in Fields(a.o.kind) \ {2} : a.o.f[k] = b.o.f[k]
    [] Design = "kindless" -> \A k \in Fields("base") : a.o.f[k] = b.o.f[k]
    [] Design = "identity" -> a.id = b.id
    [] Design = "oneway" -> /\ (a.o.kind = b.o.kind \/ a.o.kind = "base")
                            /\ \A k \in Fields(a.o.kind) : a.o.f[k] = b.o.f[k]
    [] Design = "cached" -> a.o.kind = b.o.kind /\ a.read = b.read
    [] Design = "prefix" -> a.o.kind = b.o.kind /\ (a.o.f[1] = b.o.f[1] \/ \A k \in Fields(a.o.kind) : a.o.f[k] = b.o.f[k])
    [] OTHER -> a.o = b.o
Hash(a) == IF Design = "hashed" THEN <<a.id>> ELSE <<a.o>>
Two == {<<i, j>> : i \in DOMAIN objs, j \in DOMAIN objs}
Exact == \A p \in Two : Eq(objs[p[1]], objs[p[2]]) <=> Same(objs[p[1]], objs[p[2]])
Symmetric == \A p \in Two : Eq(objs[p[1]], objs[p[2]]) <=> Eq(objs[p[2]], objs[p[1]])
Hashing == \A p \in Two : Eq(objs[p[1]], objs[p[2]]) => Hash(objs[p[1]]) = Hash(objs[p[2]])
=============================================================================
