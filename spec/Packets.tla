------------------------------ MODULE Packets ------------------------------
(***************************************************************************)
(* The body of every kind of packet (RFC 4880, section 5) as a function of *)
(* its fields.  p.t is the packet type; integers of any size are octet     *)
(* sequences; key ids and fingerprints are octets; an absent field is <<>> *)
(* and text is a sequence of code points, where 56320+b (as in Python's    *)
(* surrogateescape) stands for an octet b that is not valid UTF-8.         *)
(***************************************************************************)
EXTENDS Octets
Utf8c(c) == IF c \in 56448..56575 THEN <<c - 56320>>
            ELSE IF c < 128 THEN <<c>>
            ELSE IF c < 2048 THEN <<192 + (c \div 64), 128 + (c % 64)>>
            ELSE IF c < 65536 THEN <<224 + (c \div 4096), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
            ELSE <<240 + (c \div 262144), 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
Utf8(t) == CatAll([i \in 1..Len(t) |-> Utf8c(t[i])])

\* string-to-key specifiers; k is 0, 1, 3, or 1001/1002 for GnuPG's extensions
S2K(s) == CASE s.k = 0 -> <<0, s.hash>>
            [] s.k = 1 -> <<1, s.hash>> \o s.salt
            [] s.k = 3 -> <<3, s.hash>> \o s.salt \o <<s.count>>     \* the coded count
            [] s.k = 1001 -> <<101, s.hash, 71, 78, 85, 1>>
            [] s.k = 1002 -> <<101, s.hash, 71, 78, 85, 2, Len(s.salt)>> \o s.salt   \* the serial number

\* public key fields: version, time (4 octets), days, algo, mpis in the order of the standard
PubBody(p) == <<p.version>> \o p.time \o (IF p.version < 4 THEN U2(p.days) ELSE <<>>) \o <<p.algo>> \o MpiAll(p.mpis)
\* secret part: usage 0, 254, 255 or a cipher id
SecBody(p) == PubBody(p) \o
   (CASE p.usage = 0 -> <<0>>
      [] p.usage \in {254, 255} -> <<p.usage, p.cipher>> \o S2K(p.s2k) \o p.iv
      [] OTHER -> <<p.cipher>> \o p.iv) \o p.secret

\* lengths of subpackets: form 1, 2 or 5 octets
SubLen(n, form) == CASE form = 1 -> <<n>>
                     [] form = 2 -> <<192 + ((n - 192) \div 256), (n - 192) % 256>>
                     [] form = 5 -> <<255>> \o U4(n)
LegalSub(n, form) == \/ form = 1 /\ n < 192
                     \/ form = 2 /\ n >= 192 /\ n <= 16319
                     \/ form = 5
UatSub(s) == SubLen(Len(s.body) + 1, s.form) \o <<s.type>> \o s.body
Image(fmt, data) == <<16, 0, 1, fmt>> \o Zeros(12) \o data

Body(p) ==
  CASE p.t = 1 -> <<p.version>> \o (IF p.keyid = <<>> THEN Zeros(8) ELSE p.keyid) \o <<p.algo>> \o p.esk
    [] p.t = 2 -> (IF p.version = 4
                   THEN <<4, p.stype, p.algo, p.hash>> \o U2(Len(CatAll(p.hashed))) \o CatAll(p.hashed)
                        \o U2(Len(CatAll(p.unhashed))) \o CatAll(p.unhashed)
                   ELSE <<p.version, 5, p.stype>> \o p.time \o p.keyid \o <<p.algo, p.hash>>)
                  \o p.hash2 \o MpiAll(p.mpis)
    [] p.t = 3 -> <<p.version, p.cipher>> \o S2K(p.s2k) \o p.esk
    [] p.t = 4 -> <<p.version, p.stype, p.hash, p.algo>> \o p.keyid \o <<p.nested>>
    [] p.t \in {6, 14} -> PubBody(p)
    [] p.t \in {5, 7} -> SecBody(p)
    [] p.t = 8 -> <<p.algo>> \o p.data
    [] p.t \in {9, 19} -> p.data
    [] p.t = 10 -> p.data
    [] p.t = 11 -> LET fn == Utf8(p.name) IN
                   <<p.fmt, Len(fn)>> \o fn \o p.time
                   \o (IF p.fmt = 117 THEN Utf8(p.text) ELSE p.text)
    [] p.t = 12 -> <<p.trust>> \o p.extra
    [] p.t = 13 -> Utf8(p.text)
    [] p.t = 16 -> Utf8(p.text)
    [] p.t = 61 -> Utf8(p.text)
    [] p.t = 17 -> CatAll([i \in 1..Len(p.subs) |-> UatSub(p.subs[i])])
    [] p.t = 18 -> <<p.version>> \o p.data
    [] p.t = 63 -> p.marker \o <<p.control>> \o p.data
    [] OTHER -> p.data
=============================================================================
