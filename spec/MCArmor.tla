------------------------------ MODULE MCArmor ------------------------------
(* A writer, a channel that alters or cuts the text once, and a reader.    *)
EXTENDS Armor
CONSTANTS MaxLen, Octs, Chars, Checked
VARIABLES data, text, hit, got
vars == <<data, text, hit, got>>
Obj(d) == [type |-> 4, part |-> <<>>, total |-> <<>>, heads |-> <<>>, data |-> d]
Datas == UNION {[1..n -> Octs] : n \in 0..MaxLen}
Init == data \in Datas /\ text = Join(Lines(Obj(data), 4), <<LF>>) /\ hit = FALSE /\ got = <<"none">>
HeadLen == Len(HeadLine(Obj(<<>>)))
Alter == /\ ~hit /\ got = <<"none">>
         /\ \E i \in (HeadLen + 3)..Len(text) : \E c \in Chars :
              text[i] # c /\ text[i] # LF /\ text' = Edit(text, i, c)
         /\ hit' = TRUE /\ UNCHANGED <<data, got>>
Cut == /\ ~hit /\ got = <<"none">>
       /\ \E n \in 1..(Len(text) - 2) : text' = SubSeq(text, 1, n)
       /\ hit' = TRUE /\ UNCHANGED <<data, got>>
Read == /\ got = <<"none">>
        /\ got' = LET r == ReadLines(TextLines(text), Obj(<<>>), Checked) IN
                  IF r = <<>> THEN <<"refused">> ELSE <<"data", r[1]>>
        /\ UNCHANGED <<data, text, hit>>
Next == Alter \/ Cut \/ Read
Spec == Init /\ [][Next]_vars
Lossless == ~hit /\ got # <<"none">> => got = <<"data", data>>
Detects == got # <<"none">> /\ got # <<"refused">> => got = <<"data", data>>
=============================================================================
