---------------------------- MODULE GenFraming ----------------------------
(* Scenarios for the real readers and writers. *)
EXTENDS Framing, Json, IOUtils, TLC
Big == IOEnv.BIG = "1"
Sizes == {0, 1, 2, 191, 192, 193, 255, 256, 257, 511, 512, 1024, 1535, 8383, 8384, 8385,
          8703, 8896, 65535, 65536, 65791, 66048, 131071}
         \cup (IF Big THEN {223, 224, 447, 448, 704, 703, 2047, 2048, 8191, 8192, 16383, 16384,
                            32768, 100000, 262144, 1000000} ELSE {})
\* 2^24 is where an old-format length stops fitting in three octets
HugeSizes == {16777215, 16777216, 16777217}
PartSeqs == {<<>>, <<9>>, <<9, 9>>, <<10>>, <<9, 0>>, <<9, 0, 1>>, <<16>>,
             <<9, 13>>}
            \cup (IF Big THEN {<<12, 9, 0, 5>>, <<9, 9, 9, 9>>, <<17>>,
                               <<14, 3>>, <<20>>} ELSE {})
Forms == {[fmt |-> "new", parts |-> p, last |-> l] :
             p \in PartSeqs, l \in {1, 2, 5}}
         \cup {[fmt |-> "old", parts |-> <<>>, last |-> l] :
             l \in {0, 1, 2, 4}}
TypesOf(f, n) == IF f.fmt = "old" THEN {9, 15}
                 ELSE IF f.parts = <<>> THEN {9, 15, 33, 62}
                 ELSE {9} \cup (IF n > 0 THEN {8} ELSE {})
Follow == Frame([fmt |-> "new", parts |-> <<>>, last |-> 1], 60, 3)
Tail2(f) == IF f.fmt = "old" /\ f.last = 0 THEN <<>> ELSE Follow

Key(f, t, n) == ToString(<<f.fmt, f.parts, f.last, t, n>>)
Whole == {[kind |-> "read", s |-> Frame(f, t, n) \o Tail2(f),
           key |-> "whole " \o Key(f, t, n)] :
             <<f, t, n>> \in {<<f, t, n>> \in Forms \X (0..62) \X Sizes :
                 t \in TypesOf(f, n) /\ Legal(f, t, n, 9)}}
Huge == {[kind |-> "read", s |-> Frame(f, 9, n) \o Tail2(f),
          key |-> "whole " \o Key(f, 9, n)] :
            <<f, n>> \in {<<f, n>> \in Forms \X HugeSizes :
               f.parts = <<>> /\ f.last \in {4, 5} /\ (Big \/ n = 16777216)}}
CutAt(s) == LET z == Size(s) IN
            {k \in {1, 2, 3, 4, 5, 6, z - 1, z - 2, z - 4, z - 5, z - 6, z \div 2, z - 7, 514, 515}
               : k > 0 /\ k < z}
Cut == UNION {{[kind |-> "read", s |-> Take(Frame(f, t, n) \o Tail2(f), k),
                key |-> "cut@" \o ToString(k) \o " " \o Key(f, t, n)] :
                  k \in CutAt(Frame(f, t, n) \o Tail2(f))} :
             <<f, t, n>> \in {<<f, t, n>> \in Forms \X {9, 15} \X
                 (IF Big THEN Sizes ELSE {0, 1, 191, 192, 512, 1024, 8384, 65791}) :
                 t \in TypesOf(f, n) /\ Legal(f, t, n, 9)}}
Lists == {[kind |-> "read", s |-> Frame(f, 9, n) \o Frame(g, 9, m)
                                  \o Frame(f, 15, n),
           key |-> "list " \o Key(f, 9, n) \o Key(g, 9, m)] :
             <<f, g, n, m>> \in {<<f, g, n, m>> \in
               {x \in Forms : ~(x.fmt = "old" /\ x.last = 0) /\ x.parts = <<>>}
               \X {x \in Forms : ~(x.fmt = "old" /\ x.last = 0)}
               \X {0, 1, 192} \X {0, 192, 512, 900} :
               Legal(f, 9, n, 9) /\ Legal(f, 15, n, 9) /\ Legal(g, 9, m, 9)}}
Write == {[kind |-> "write", pk |-> <<<<fm, t, n>>, <<"new", 60, 2>>>>,
           key |-> "write " \o ToString(<<fm, t, n>>)] :
            <<fm, t, n>> \in {<<fm, t, n>> \in {"new", "old"} \X {9, 15, 33}
                     \X (Sizes \cup {16777216}) : fm = "old" => t < 16}}
         \cup {[kind |-> "write", pk |-> <<<<fm, t, n>>, <<"old", 12, 2>>>>, key |-> "write " \o ToString(<<fm, t, n>>)] :
            <<fm, t, n>> \in {"new", "old"} \X (1..63) \X {0, 7, 300}}
Scen == SetToSeq(Whole \cup Huge \cup Cut \cup Lists \cup Write)
ASSUME ndJsonSerialize(IOEnv.GEN_OUT, Scen)
VARIABLE x
Init == x = 0
Next == UNCHANGED x
=============================================================================
