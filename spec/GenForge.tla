----------------------------- MODULE GenForge -----------------------------
(***************************************************************************)
(* Genuine signatures and what somebody makes of them: presentations.      *)
(***************************************************************************)
EXTENDS Signing, FiniteSets, Json, IOUtils, TLC
Big == IOEnv.BIG = "1"
Keys == ndJsonDeserialize(IOEnv.KEYS)
KeyOf(n, v) == Keys[CHOOSE j \in 1..Len(Keys) : Keys[j].name = n /\ Keys[j].version = v]
SubX(t, b) == <<Len(b) + 1, t>> \o b
Created == <<83, 114, 78, 1>>
Time == SubX(2, Created)
Iss(k) == SubX(16, k.id)
N == [kind |-> "doc", data |-> <<>>, owner |-> "", key |-> <<>>, sub |-> <<>>, subname |-> "", sig |-> <<>>]
Of(o, kind) == [N EXCEPT !.kind = kind, !.owner = o.name, !.key = o.body]
A == KeyOf("rsaA", 4)
B == KeyOf("rsaB", 4)
Owner(n) == KeyOf(n, 4)
WithSub(it, n) == [it EXCEPT !.sub = KeyOf(n, 4).body, !.subname = n]
U1 == <<65, 32, 60, 97, 64, 98, 62>>
Uat1 == <<20, 1, 16, 0, 1, 1>> \o Zeros(12) \o <<1, 2, 3>>
Text == <<72, 105, 10, 116, 13, 10, 120, 13, 121>>
TargetSig(h) == [version |-> 4, type |-> 16, palg |-> 17, halg |-> 2, created |-> Created, id |-> Zeros(8), hashed |-> h, unhashed |-> SubX(100, <<5>>),
                 hash2 |-> <<7, 7>>, values |-> Mpi(<<9, 9>>) \o Mpi(<<8>>)]
Bases ==
  {<<0, [N EXCEPT !.data = Text]>>, <<0, [N EXCEPT !.data = <<>>]>>, <<1, [N EXCEPT !.data = Text]>>, <<2, N>>,
   <<19, [Of(B, "uid") EXCEPT !.data = U1]>>, <<19, [Of(B, "uat") EXCEPT !.data = Uat1]>>, <<48, [Of(B, "uid") EXCEPT !.data = U1]>>,
   <<31, Of(B, "key")>>, <<32, Of(B, "key")>>, <<24, WithSub(Of(B, "subkey"), "rsaF")>>, <<40, WithSub(Of(B, "subkey"), "rsaF")>>,
   \* a document that looks like a certified identity
   <<0, [N EXCEPT !.data = KeyHash(B.body) \o <<180>> \o U4(7) \o U1]>>, <<0, [N EXCEPT !.data = KeyHash(B.body)]>>,
   <<80, [N EXCEPT !.kind = "sig", !.sig = TargetSig(Time)]>>}
Sign(k, b, v, halg) ==
  [type |-> b[1], item |-> b[2], version |-> v, halg |-> halg, palg |-> k.alg, created |-> IF v < 4 THEN Created ELSE <<>>, id |-> IF v < 4 THEN k.id ELSE <<>>,
   hashed |-> IF v < 4 THEN <<>> ELSE Time \o Iss(k) \o SubX(27, <<3>>), unhashed |-> IF v < 4 THEN <<>> ELSE SubX(100, <<1>>),
   by |-> [name |-> k.name, version |-> k.version], value |-> "genuine"]
Flip(x) == IF x % 2 = 0 THEN x + 1 ELSE x - 1
FlipAt(s, j) == [s EXCEPT ![j] = Flip(@)]
DropAt(s, j) == SubSeq(s, 1, j - 1) \o SubSeq(s, j + 1, Len(s))
InsAt(s, j, x) == SubSeq(s, 1, j - 1) \o <<x>> \o SubSeq(s, j, Len(s))
Data(d) == {FlipAt(d, j) : j \in {1, Len(d)} \cap (1..Len(d))} \cup {DropAt(d, j) : j \in {1, Len(d)} \cap (1..Len(d))} \cup {Append(d, x) : x \in {0, 10}}
           \cup {InsAt(d, 1, 0), InsAt(d, 1, 10)} \cup {d \o d, <<>>}
Other(n) == IF n = "rsaB" THEN "rsaA" ELSE "rsaB"
Items(it) ==
  CASE it.kind = "doc" -> {[it EXCEPT !.data = d] : d \in Data(it.data)}
         \cup (IF Len(it.data) > 3 /\ it.data[1] = 153 THEN {[Of(B, "uid") EXCEPT !.data = U1], Of(B, "key")} ELSE {})
    [] it.kind \in {"uid", "uat"} ->
         {[N EXCEPT !.data = KeyHash(it.key) \o <<IF it.kind = "uid" THEN 180 ELSE 209>> \o U4(Len(it.data)) \o it.data], [N EXCEPT !.data = KeyHash(it.key) \o it.data]} \cup (IF it.kind = "uid" THEN {[it EXCEPT !.data = d] : d \in Data(it.data)}
          ELSE {[it EXCEPT !.data = FlipAt(@, j)] : j \in {6, 9, Len(it.data)}} \cup {[it EXCEPT !.data = Append([@ EXCEPT ![1] = @ + 1], 9)], [it EXCEPT !.data = @ \o @]})
         \cup {[it EXCEPT !.key = Owner(Other(it.owner)).body, !.owner = Other(it.owner)], Of(Owner(it.owner), "key")}
         \cup (IF it.kind = "uat" THEN {[it EXCEPT !.kind = "uid"]} ELSE {})
    [] it.kind = "key" -> {[N EXCEPT !.data = KeyHash(it.key)], Of(Owner(Other(it.owner)), "key"), [Of(Owner(it.owner), "uid") EXCEPT !.data = U1], [Of(Owner(it.owner), "uid") EXCEPT !.data = <<>>],
                           WithSub(Of(Owner(it.owner), "subkey"), "rsaF")}
    [] it.kind = "subkey" -> {[N EXCEPT !.data = KeyHash(it.key) \o KeyHash(it.sub)], WithSub(Of(Owner(it.owner), "subkey"), "rsaE3"), WithSub(Of(Owner(Other(it.owner)), "subkey"), it.subname), Of(Owner(it.owner), "key")}
    [] it.kind = "sig" -> {[it EXCEPT !.sig.hashed = SubX(2, <<83, 114, 78, 2>>)], [it EXCEPT !.sig.type = 17], [it EXCEPT !.sig.values = Mpi(<<9, 8>>) \o Mpi(<<8>>)],
                           [it EXCEPT !.sig.hash2 = <<7, 8>>], [it EXCEPT !.sig.unhashed = SubX(100, <<6>>)]}
Types == {0, 1, 2, 16, 17, 18, 19, 24, 25, 31, 32, 40, 48, 64, 80, 127, 255}
Hashed(p) ==
  LET h == p.hashed IN IF Len(h) < 17 THEN {h \o SubX(100, <<1>>)} ELSE
  {FlipAt(h, j) : j \in {3, 6, 8, 9, 16, Len(h)}} \cup {SubSeq(h, 1, 16), SubSeq(h, 7, Len(h)), h \o SubX(100, <<1>>), h \o h,
     SubSeq(h, 7, 16) \o SubSeq(h, 1, 6) \o SubSeq(h, 17, Len(h))}
  \cup {[h EXCEPT ![2] = 130], <<255, 0, 0, 0>> \o h}
Values(alg) == {"zero", "one", "plus", "minus", "xor", "double", "missing", "extra", "huge"}
               \cup (IF alg = 17 THEN {"swapped", "r zero", "s zero", "r plus", "s plus", "s minus"}
                     ELSE {"garbage", "other digest", "no info", "type 2", "short", "inner zero", "long"})
\* one change of the presentation
Change(p) ==
  {[p EXCEPT !.item = it] : it \in Items(p.item)}
  \cup {[p EXCEPT !.type = t] : t \in {t \in Types : t # p.type /\ (p.item.kind = "sig" \/ t # 80)}}
  \cup {[p EXCEPT !.halg = h] : h \in {0, 1, 2, 3, 8, 9, 10, 11, 99} \ {p.halg}}
  \cup (IF p.version >= 4 THEN {[p EXCEPT !.palg = a] : a \in {1, 2, 3, 16, 17, 20} \ {p.palg}} ELSE {})
  \cup (IF p.version >= 4 THEN {[p EXCEPT !.hashed = h] : h \in Hashed(p)}
          \cup {[p EXCEPT !.version = 3, !.created = Created, !.id = KeyOf(p.by.name, p.by.version).id, !.hashed = <<>>, !.unhashed = <<>>],
                [p EXCEPT !.unhashed = <<>>], [p EXCEPT !.unhashed = SubX(100, <<2>>)],
                [p EXCEPT !.hashed = IF Len(@) < 17 THEN <<>> ELSE SubSeq(@, 1, 16), !.unhashed = SubX(27, <<3>>)]}
        ELSE {[p EXCEPT !.created = FlipAt(@, j)] : j \in 1..4}
          \cup {[p EXCEPT !.version = 4, !.created = <<>>, !.id = <<>>, !.hashed = Time \o Iss(KeyOf(p.by.name, p.by.version))],
                [p EXCEPT !.version = 4, !.created = <<>>, !.id = <<>>, !.unhashed = Time \o Iss(KeyOf(p.by.name, p.by.version))]})
  \cup {[p EXCEPT !.by = [name |-> k.name, version |-> k.version]] : k \in {KeyOf("rsaB", 4), KeyOf("dsaA", 4)} \ {KeyOf(p.by.name, p.by.version)}}
  \* another key that the signature claims to be by
  \cup (LET k == IF p.palg = 17 THEN KeyOf("dsaB", 4) ELSE KeyOf("rsaC", 4) IN
        {IF p.version < 4 THEN [p EXCEPT !.by = [name |-> k.name, version |-> 4], !.id = k.id]
         ELSE [p EXCEPT !.by = [name |-> k.name, version |-> 4], !.unhashed = Iss(k)]})
  \cup (IF p.version < 4 THEN {[p EXCEPT !.id = FlipAt(@, j)] : j \in {1, 8}} ELSE {})
  \cup {[p EXCEPT !.value = v] : v \in Values(KeyOf(p.by.name, p.by.version).alg)}
KindTypes(k) == CASE k = "doc" -> {0, 1, 2} [] k \in {"uid", "uat"} -> {16, 17, 18, 19, 48} [] k = "key" -> {31, 32, 48} [] k = "subkey" -> {24, 25, 40} [] k = "sig" -> {80}
Legal(p) == p.type \in KindTypes(p.item.kind)
\* what a careless verifier may digest for a kind that does not suit
Shown(p) == IF Legal(p) \/ p.type = 80 THEN Covered(p.type, p.item, p.version)
            ELSE IF p.item.kind = "sig" THEN <<>>
            ELSE Covered(CASE p.item.kind = "doc" -> 0 [] p.item.kind \in {"uid", "uat"} -> 19 [] p.item.kind = "key" -> 31 [] OTHER -> 24, p.item, p.version)
Pres(p) == [p |-> p, shown |-> Shown(p), legal |-> Legal(p), body |-> IF p.item.kind = "sig" THEN SigBody(p.item.sig) ELSE <<>>]
Few(n, S) == LET q == SetToSeq(S) IN {q[j] : j \in {j \in 1..Len(q) : j % n = 1}}
Start ==
  {Sign(A, b, 4, 8) : b \in Bases} \cup {Sign(A, b, 3, 2) : b \in Bases}
  \cup {Sign(KeyOf("rsaE3", 4), b, v, 2) : b \in {<<0, [N EXCEPT !.data = Text]>>, <<19, [Of(B, "uid") EXCEPT !.data = U1]>>}, v \in {3, 4}}
  \cup {Sign(KeyOf(n, 4), b, v, 2) : n \in {"dsaA", "dsaQ256"}, b \in IF Big THEN Bases ELSE {<<0, [N EXCEPT !.data = Text]>>, <<24, WithSub(Of(B, "subkey"), "rsaF")>>, <<19, [Of(B, "uid") EXCEPT !.data = U1]>>}, v \in {3, 4}}
  \cup {Sign(KeyOf("rsaB", 3), b, 3, 1) : b \in {<<0, [N EXCEPT !.data = Text]>>, <<19, [Of(B, "uid") EXCEPT !.data = U1]>>}}
Two(p) == Few(IF Big THEN 7 ELSE 97, UNION {Change(q) : q \in {q \in Change(p) : q.item.kind # "sig" \/ q.type = 80}} \ {p})
Scen == LET St == SetToSeq(Start) IN
  [j \in 1..Len(St) |-> LET s == St[j]  One == SetToSeq({s} \cup Change(s) \cup Two(s)) IN
    [s |-> s, covered |-> Covered(s.type, s.item, s.version), shown |-> [k \in 1..Len(One) |-> Pres(One[k])],
     key |-> s.by.name \o " v" \o ToString(s.by.version) \o " type " \o ToString(s.type) \o " digest " \o ToString(s.halg) \o " sig v" \o ToString(s.version) \o " "
             \o s.item.kind \o " " \o ToString(Len(s.item.data))]]
ASSUME ndJsonSerialize(IOEnv.GEN_OUT, Scen)
VARIABLE x
Init == x = 0
Next == UNCHANGED x
=============================================================================
