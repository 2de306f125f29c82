----------------------------- MODULE MCMessage -----------------------------
(***************************************************************************)
(* A reader of messages that takes one packet after another, with a stack  *)
(* of what is still open: the signatures that must follow and, around      *)
(* them, the packets after the compressed or encrypted data being read.    *)
(***************************************************************************)
EXTENDS Message, TLC
CONSTANTS Design, MaxLen, MaxLayers
VARIABLES input, made, stack, mode, layers, ids
vars == <<input, made, stack, mode, layers, ids>>
Kinds == {LComp, LSig(TRUE, <<1>>), LSig(TRUE, <<1, 2>>), LSig(FALSE, <<2>>), LSig(FALSE, <<1, 2>>), LEnc(TRUE, <<"pk">>), LEnc(TRUE, <<"sk", "pk">>), LEnc(FALSE, <<>>)}
Composed == UNION {[1..n -> Kinds] : n \in 0..MaxLayers}
Alphabet == {Lit, Comp(<<Lit>>), Comp(<<Lit, Lit>>), Comp(<<>>), Sig(1), Sig(2), Ops(1, 1), Ops(1, 0), Ops(2, 1), Esk("pk"), Data(TRUE, <<Lit>>),
             Data(FALSE, <<Lit, Sig(1)>>), Mark}
Short == UNION {[1..n -> Alphabet] : n \in 0..MaxLen}
Wr(L) == IF Design = "order" /\ L # <<>> /\ L[1].k = "sig" /\ L[1].op
         THEN LET h == L[1] IN [j \in 1..Len(h.ids) |-> Ops(h.ids[j], IF j = Len(h.ids) THEN 1 ELSE 0)] \o Write(Tail(L)) \o [j \in 1..Len(h.ids) |-> Sig(h.ids[j])]
         ELSE IF Design = "flag" /\ L # <<>> /\ L[1].k = "sig" /\ L[1].op
         THEN LET h == L[1] IN [j \in 1..Len(h.ids) |-> Ops(h.ids[j], IF j = Len(h.ids) THEN 0 ELSE 1)] \o Write(Tail(L)) \o Reverse([j \in 1..Len(h.ids) |-> Sig(h.ids[j])])
         ELSE Write(L)
None == <<[k |-> "none"]>>
Init == /\ \/ \E L \in Composed : made = L /\ input = Wr(L)
           \/ input \in Short /\ made = None
        /\ stack = <<[toks |-> input, close |-> <<>>]>> /\ mode = "want" /\ layers = <<>> /\ ids = <<>>
Top == stack[Len(stack)]
Put(f) == [stack EXCEPT ![Len(stack)] = f]
Rest == [Top EXCEPT !.toks = Tail(@)]
Has(t) == Top.toks # <<>> /\ Head(Top.toks).t = t
Set(m) == mode' = m
Same == UNCHANGED <<input, made>>
Skip == mode \notin {"ok", "err"} /\ Has("mark") /\ Design # "mark" /\ stack' = Put(Rest) /\ UNCHANGED <<input, made, mode, layers, ids>>
Ready == Top.toks # <<>> /\ (Head(Top.toks).t # "mark" \/ Design = "mark")
H == Head(Top.toks)
Want == mode = "want" /\ Ready /\ Same /\
  CASE H.t = "lit" -> stack' = Put(Rest) /\ Set("close") /\ UNCHANGED <<layers, ids>>
    [] H.t = "comp" -> stack' = Append(Put(Rest), [toks |-> H.in, close |-> <<>>]) /\ layers' = Append(layers, LComp) /\ UNCHANGED <<mode, ids>>
    [] EskType(H.t) -> stack' = Put(Rest) /\ Set("esk") /\ ids' = <<H.t>> /\ UNCHANGED layers
    [] DataType(H.t) -> stack' = Append(Put(Rest), [toks |-> H.in, close |-> <<>>]) /\ layers' = Append(layers, LEnc(H.t = "seip", <<>>)) /\ UNCHANGED <<mode, ids>>
    [] H.t = "sig" -> stack' = Put(Rest) /\ Set("sigs") /\ ids' = <<H.id>> /\ UNCHANGED layers
    [] H.t = "ops" -> stack' = Put(Rest) /\ Set(IF H.last = 1 /\ Design # "greedy" THEN "opsend" ELSE "ops") /\ ids' = <<H.id>> /\ UNCHANGED layers
    [] OTHER -> Set("err") /\ UNCHANGED <<stack, layers, ids>>
More == mode \in {"esk", "sigs", "ops"} /\ Ready /\ Same /\
  CASE mode = "esk" /\ EskType(H.t) -> stack' = Put(Rest) /\ ids' = Append(ids, H.t) /\ UNCHANGED <<layers, mode>>
    [] mode = "esk" /\ DataType(H.t) -> stack' = Append(Put(Rest), [toks |-> H.in, close |-> <<>>]) /\ layers' = Append(layers, LEnc(H.t = "seip", ids)) /\ Set("want") /\ ids' = <<>>
    [] mode = "esk" -> Set("err") /\ UNCHANGED <<stack, layers, ids>>
    [] mode = "sigs" /\ H.t = "sig" -> stack' = Put(Rest) /\ ids' = Append(ids, H.id) /\ UNCHANGED <<layers, mode>>
    [] mode = "sigs" -> layers' = Append(layers, LSig(FALSE, ids)) /\ Set("want") /\ ids' = <<>> /\ UNCHANGED stack
    [] mode = "ops" /\ H.t = "ops" -> stack' = Put(Rest) /\ ids' = Append(ids, H.id) /\ Set(IF H.last = 1 /\ Design # "greedy" THEN "opsend" ELSE "ops") /\ UNCHANGED layers
    [] OTHER -> IF Design = "greedy" THEN Set("opsend") /\ UNCHANGED <<stack, layers, ids>> ELSE Set("err") /\ UNCHANGED <<stack, layers, ids>>
OpsEnd == /\ mode = "opsend" /\ Same /\ layers' = Append(layers, LSig(TRUE, ids)) /\ Set("want") /\ ids' = <<>>
          /\ stack' = Put([Top EXCEPT !.close = Reverse(ids) \o @])
\* nothing left where a packet must follow
Ended == mode \in {"want", "esk", "sigs", "ops"} /\ Top.toks = <<>> /\ Set("err") /\ Same /\ UNCHANGED <<stack, layers, ids>>
Close == mode = "close" /\ Same /\ UNCHANGED <<layers, ids>> /\
  IF Top.close # <<>>
  THEN IF Ready /\ H.t = "sig" /\ (H.id = Head(Top.close) \/ Design = "order") THEN stack' = Put([Rest EXCEPT !.close = Tail(@)]) /\ UNCHANGED mode
       ELSE /\ Top.toks = <<>> \/ Ready
            /\ IF Design = "unclosed" /\ Top.toks = <<>> THEN stack' = Put([Top EXCEPT !.close = <<>>]) /\ UNCHANGED mode ELSE Set("err") /\ UNCHANGED stack
  ELSE IF Top.toks # <<>> /\ Design # "trailing" THEN Ready /\ Set("err") /\ UNCHANGED stack
  ELSE IF Len(stack) = 1 THEN Set("ok") /\ UNCHANGED stack
  ELSE stack' = Front(stack) /\ UNCHANGED mode
Next == Skip \/ Want \/ More \/ OpsEnd \/ Ended \/ Close
Spec == Init /\ [][Next]_vars
Done == mode \in {"ok", "err"}
RoundTrip == (Done /\ made # None) => mode = "ok" /\ layers = Norm(made)
OnlyLegal == (mode = "ok" /\ ~Open(input)) => Legal(input)
AllLegal == mode = "err" => ~Legal(input)
LayersRight == (mode = "ok" /\ Legal(input)) => layers = Layers(input)
Finishes == Done \/ ENABLED Next
=============================================================================
