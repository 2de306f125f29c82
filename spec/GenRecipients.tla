--------------------------- MODULE GenRecipients ---------------------------
(***************************************************************************)
(* Recipient lists, ciphers and ways to derive keys.  "lib" messages are   *)
(* made by the library, "peer" ones without it.                            *)
(***************************************************************************)
EXTENDS Recipients, FiniteSets, SequencesExt, Json, IOUtils, TLC
Big == IOEnv.BIG = "1"
Keys == {"rsaE", "rsaF", "elgA", "elgB", "rsa768", "only"}
Few2 == {"rsaE", "elgA"}
Passes == {"p", "q"}
Ciphers == {1, 2, 3, 4, 7, 8, 9, 10, 11, 12, 13}
Digests == {1, 2, 3, 8, 9, 10, 11}
Base == [by |-> "lib", slots |-> <<>>, cipher |-> 9, ip |-> TRUE, s2k |-> 3, digest |-> 8, kc |-> 9, count |-> 96, given |-> FALSE, short |-> FALSE, text |-> 3]
Few(n, S) == LET q == SetToSeq(S) IN {q[j] : j \in {j \in 1..Len(q) : j % n = 1}}
\* ---- made by the library: the visible ones come first
LibLists == LET V == UNION {[1..n -> Keys] : n \in 0..2}  H == UNION {[1..n -> {"rsaE", "elgB", "rsa768"}] : n \in 0..2} IN
  {[j \in 1..Len(v) |-> Slot("pub", v[j])] \o [j \in 1..Len(h) |-> Slot("hid", h[j])] : v \in V, h \in H} \ {<<>>}
Lib == {[Base EXCEPT !.slots = l] : l \in IF Big THEN LibLists ELSE Few(4, LibLists) \cup {l \in LibLists : Len(l) = 1}}
  \cup {[Base EXCEPT !.slots = <<Slot("pub", k)>>, !.cipher = c, !.ip = ip, !.given = g] : k \in Few2, c \in Ciphers, ip \in BOOLEAN, g \in BOOLEAN}
  \cup {[Base EXCEPT !.slots = <<Slot("pub", "rsaE")>>, !.cipher = c, !.ip = ip, !.text = n] : c \in {2, 9}, ip \in BOOLEAN, n \in 0..40 \cup {255, 4096}}
  \cup {[Base EXCEPT !.slots = <<Slot("sym", "p")>>, !.cipher = c, !.ip = ip, !.s2k = s] : c \in Ciphers, ip \in BOOLEAN, s \in {0, 1, 3}}
  \cup {[Base EXCEPT !.slots = <<Slot("sym", "q")>>, !.digest = d, !.s2k = s, !.ip = ip] : d \in Digests, s \in {0, 1, 3}, ip \in BOOLEAN}
  \cup {[Base EXCEPT !.slots = <<Slot("sym", "p")>>, !.cipher = c, !.kc = k, !.ip = ip] : c \in {2, 7, 9, 10}, k \in Ciphers, ip \in BOOLEAN}
  \cup {[Base EXCEPT !.slots = <<Slot("sym", "p")>>, !.count = n] : n \in {0, 1, 15, 16, 95, 97}}
  \cup {[Base EXCEPT !.slots = <<Slot("default", "p")>>, !.cipher = 1, !.ip = ip] : ip \in BOOLEAN}
\* ---- made by a peer, in any order
PeerSlots == {Slot("pub", "rsaE"), Slot("pub", "elgA"), Slot("hid", "rsaE"), Slot("hid", "elgB"), Slot("hid", "rsa768"), Slot("hid", "only"), Slot("sym", "p"), Slot("sym", "q"), Slot("bad", "rsaE"), Slot("bad", "elgA"), Slot("odd", "x"),
              Slot("oddsym", "x")}
PeerLists == UNION {[1..n -> PeerSlots] : n \in 1..3}
P == [Base EXCEPT !.by = "peer"]
Peer == {[P EXCEPT !.slots = l] : l \in IF Big THEN PeerLists ELSE {l \in PeerLists : Len(l) = 1} \cup Few(2, {l \in PeerLists : Len(l) = 2}) \cup Few(9, {l \in PeerLists : Len(l) = 3})}
  \cup {[P EXCEPT !.slots = <<Slot("raw", "p")>> \o l, !.cipher = c, !.ip = ip] : c \in Ciphers, ip \in BOOLEAN, l \in {<<>>, <<Slot("raw", "p")>>}}
  \cup {[P EXCEPT !.slots = l, !.ip = ip, !.cipher = c] : l \in {<<Slot("sym", "q"), Slot("sym", "p")>>, <<Slot("hid", "elgA"), Slot("hid", "rsaF"), Slot("pub", "rsaE")>>, <<Slot("sym", "p"), Slot("pub", "elgA")>>}, ip \in BOOLEAN, c \in Ciphers}
  \cup {[P EXCEPT !.slots = <<Slot("pub", k)>>, !.short = TRUE, !.ip = ip] : k \in Keys, ip \in BOOLEAN}
  \cup {[P EXCEPT !.slots = <<Slot("hid", k)>>, !.short = TRUE] : k \in Keys}
  \cup {[P EXCEPT !.slots = <<Slot("default", "q")>>, !.cipher = 1, !.ip = ip] : ip \in BOOLEAN}
  \cup {[P EXCEPT !.slots = <<Slot("pub", "rsaE")>>, !.cipher = c, !.ip = ip, !.text = n] : c \in {2, 9}, ip \in BOOLEAN, n \in 0..40 \cup {255, 4096}}
Openers == <<[k |-> "key", who |-> "rsaE"], [k |-> "key", who |-> "rsaF"], [k |-> "key", who |-> "elgA"], [k |-> "key", who |-> "elgB"], [k |-> "key", who |-> "rsa768"], [k |-> "key", who |-> "rsaA"], [k |-> "key", who |-> "only"],
             [k |-> "pass", who |-> "p"], [k |-> "pass", who |-> "q"], [k |-> "pass", who |-> "r"], [k |-> "pass", who |-> ""], [k |-> "locked", who |-> "rsaE"], [k |-> "locked", who |-> "elgA"]>>
RECURSIVE Txt(_)
Txt(l) == IF l = <<>> THEN "" ELSE l[1].k \o " " \o l[1].who \o ", " \o Txt(Tail(l))
Scen == LET A == SetToSeq(Lib \cup Peer) IN
  [j \in 1..Len(A) |-> [s |-> A[j], openers |-> Openers, n |-> j,
     key |-> A[j].by \o " " \o Txt(A[j].slots) \o "cipher " \o ToString(A[j].cipher) \o (IF A[j].ip THEN "" ELSE " plain") \o " s2k " \o ToString(A[j].s2k) \o "/" \o ToString(A[j].digest) \o "/" \o ToString(A[j].kc)
             \o (IF A[j].short THEN " short" ELSE "") \o " text " \o ToString(A[j].text)]]
ASSUME ndJsonSerialize(IOEnv.GEN_OUT, Scen)
VARIABLE x
Init == x = 0
Next == UNCHANGED x
=============================================================================
