------------------------------ MODULE GenModes ------------------------------
EXTENDS Modes, FiniteSets, Json, IOUtils, TLC
Big == IOEnv.BIG = "1"
BlockLen(c) == IF c \in {1, 2, 3, 4} THEN 8 ELSE 16
Ciphers == {1, 2, 3, 4, 7, 8, 9, 10, 11, 12, 13}
Own == {1, 10, 11, 12, 13}              \* the library's own modes
Block(n, k) == [i \in 1..n |-> (i * 29 + k * 101) % 256]
Ones(n) == [i \in 1..n |-> 255]
\* lengths of the parts, per mode
Seqs(S, n) == UNION {[1..k -> S] : k \in 1..n}
Parts(mode, bs, seg) ==
  CASE mode \in {"ECB", "CBC"} -> Seqs({0, bs, 2 * bs}, 3) \cup {<<bs, 1, bs>>, <<bs - 1>>, <<bs + 1, bs>>}
    [] mode = "CFB" -> LET u == bs \div seg IN
         {[i \in 1..Len(p) |-> p[i] * seg] : p \in Seqs({0, 1, u, u + 1}, 3)} \cup (IF seg > 1 THEN {<<seg, 1, seg>>, <<seg - 1>>, <<seg + 1, seg>>} ELSE {})
    [] mode \in {"OFB", "CTR"} -> Seqs({0, 1, bs - 1, bs, bs + 1}, IF Big THEN 4 ELSE 3) \cup {<<2 * bs, 3, 2 * bs>>, <<3 * bs + 5>>, <<5, 3 * bs, 7>>}
    [] OTHER -> {p \in Seqs({1, bs - 1, bs, bs + 3, 2 * bs}, 3) : \A i \in 1..(Len(p) - 1) : p[i] % bs = 0} \cup {<<bs, 3, 2>>}
Segs(c) == IF BlockLen(c) = 8 THEN {1, 2, 4, 8} ELSE {1, 2, 8, 16}
\* ways to make the object: through utils, with the resynchronising wrapper, through the cipher's module
Apis(c, mode) == (IF mode = "CTR" THEN {} ELSE {"utils", "sync"}) \cup (IF c \in Own THEN {"module"} ELSE {"wrapper"})
Modes5 == {"ECB", "CBC", "CFB", "OFB", "OPENPGP", "CTR"}
SegsOf(mode, c) == IF mode = "CFB" THEN Segs(c) ELSE {0}
Ivs(bs, mode) == {Block(bs, 3)} \cup (IF mode = "CTR" THEN {[i \in 1..bs |-> IF i < 3 THEN 1 ELSE 255]} ELSE {Ones(bs)})
Cut(parts, k) == [i \in 1..Len(parts) |-> Block(parts[i], i + k)]
S(c, mode, seg, iv, api, parts, dec) ==
  [cipher |-> c, m |-> [mode |-> mode, bs |-> BlockLen(c), seg |-> seg, iv |-> iv], api |-> api, dec |-> dec, parts |-> Cut(parts, c)]
Main == {x \in {<<c, mode, dec>> : c \in Ciphers, mode \in Modes5, dec \in BOOLEAN} : TRUE}
Scens(c, mode, dec) ==
  UNION {{S(c, mode, seg, iv, api, p, dec) : p \in Parts(mode, BlockLen(c), seg), iv \in (IF Big THEN Ivs(BlockLen(c), mode) ELSE IF mode = "CTR" THEN {[i \in 1..BlockLen(c) |-> IF i < 3 THEN 1 ELSE 255]} ELSE {Block(BlockLen(c), 3)}),
            api \in Apis(c, mode)} : seg \in SegsOf(mode, c)}
\* PyCrypto's own OFB takes whole blocks only
Served(s) == s.m.mode = "OFB" /\ s.api = "utils" /\ s.cipher \notin Own => \A i \in 1..Len(s.parts) : Len(s.parts[i]) % s.m.bs = 0
Quickly(s) == Big \/ s.cipher \in {1, 9, 10, 11} \/ Len(s.parts) < 3
Scen == LET A == SetToSeq({s \in UNION {Scens(x[1], x[2], x[3]) : x \in Main} : Quickly(s) /\ Served(s)}) IN
  [i \in 1..Len(A) |-> A[i] @@ [key |-> ToString(<<A[i].cipher, A[i].m.mode, A[i].m.seg, A[i].api, A[i].dec>>) \o ToString([j \in 1..Len(A[i].parts) |-> Len(A[i].parts[j])])]]
ASSUME ndJsonSerialize(IOEnv.GEN_OUT, Scen)
VARIABLE x
Init == x = 0
Next == UNCHANGED x
=============================================================================
