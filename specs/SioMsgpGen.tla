---------------------------- MODULE SioMsgpGen ----------------------------
(* Packets to encode, and frames to decode: well-formed ones in every form and damaged ones. *)
EXTENDS SioMsgp, Json
CONSTANTS Depth, Mode
VARIABLES fin, hist
One(X) == {RandomElement(X)}
Pick(X) == RandomElement(X)
Strings == {<<>>, <<97>>, <<34, 92>>, <<195, 169>>, <<0, 10>>, [i \in 1..31 |-> 98], [i \in 1..32 |-> 99], [i \in 1..260 |-> 100], <<240, 159, 152, 128>>}
Ints == {Small(0), Small(1), Small(127), UInt(<<128>>), UInt(<<255>>), UInt(<<1, 0>>), UInt(<<127, 255>>), UInt(<<128, 0>>), UInt(<<255, 255>>), UInt(<<1, 0, 0>>), UInt(<<127, 255, 255, 255>>),
         UInt(<<128, 0, 0, 0>>), UInt(<<255, 255, 255, 255>>), UInt(<<1, 0, 0, 0, 0>>), UInt(<<127, 255, 255, 255, 255, 255, 255, 255>>), UInt(<<255, 255, 255, 255, 255, 255, 255, 255>>),
         Small(-1), Small(-32), Small(-33), Small(-128), <<1>> \o Pad8(<<129>>), <<1>> \o Pad8(<<128, 0>>), <<1>> \o Pad8(<<128, 1>>), <<1>> \o Pad8(<<128, 0, 0, 0>>), <<1>> \o Pad8(<<128, 0, 0, 1>>),
         <<1, 128, 0, 0, 0, 0, 0, 0, 0>>}
IVal(u) == [k |-> "#", v |-> Pick(Ints)]
SVal(u) == S(Pick(Strings))
F64(u) == [k |-> "e", v |-> Pick({Z(8), <<63, 224, 0, 0, 0, 0, 0, 0>>, <<192, 9, 33, 251, 84, 68, 45, 24>>, <<127, 239, 255, 255, 255, 255, 255, 255>>})]
F32(u) == [k |-> "e", v |-> Pick({Z(4), <<63, 0, 0, 0>>, <<192, 73, 15, 219>>})]
XVal(u) == [k |-> "x", v |-> Pick({<<>>, <<0>>, <<1, 2, 255>>, [i \in 1..40 |-> 200], [i \in 1..300 |-> 7]})]
BVal(u) == Pick({[k |-> "t", v |-> <<>>], [k |-> "f", v |-> <<>>]})
SList(n) == [k |-> "l", v |-> [i \in 1..n |-> SVal(0)]]
RECURSIVE Any_(_)
Any_(d) == LET x == Pick(1..13) IN
  CASE x <= 3 \/ (d = 0 /\ x > 9) -> SVal(0)
    [] x <= 5 -> IVal(0) [] x = 6 -> F64(0) [] x = 7 -> XVal(0) [] x = 8 -> BVal(0) [] x = 9 -> [k |-> "z", v |-> <<>>]
    [] x = 10 -> [k |-> "l", v |-> [i \in 1..Pick(0..3) |-> Any_(d - 1)]]
    [] x = 11 -> [k |-> "o", v |-> <<<<Pick(Strings), Any_(d - 1)>>>>]
    [] x = 12 -> [k |-> "l", v |-> [i \in 1..Pick({15, 16, 20}) |-> I(i)]]
    [] OTHER -> [k |-> "o", v |-> <<<<<<97>>, Any_(d - 1)>>, <<<<98, 34>>, Any_(d - 1)>>>>]
Kinds == <<"str", "pstr", "bool", "bin", "int", "int8", "int16", "int32", "int64", "dur", "uint", "uint8", "uint16", "uint32", "uint64", "f64", "f32", "list", "strs", "nest", "pair", "map", "mapint", "mapnam", "iface", "iface", "str", "int", "bin">>
For(kind) == CASE kind \in {"str", "pstr"} -> SVal(0) [] kind = "bool" -> BVal(0) [] kind = "bin" -> XVal(0)
               [] kind \in DOMAIN Bits -> IF Pick(1..3) = 1 THEN IVal(0) ELSE I(Pick({0, 5, 127}))
               [] kind = "f64" -> F64(0) [] kind = "f32" -> F32(0)
               [] kind = "list" -> [k |-> "l", v |-> [i \in 1..Pick(0..3) |-> Any_(1)]]
               [] kind = "strs" -> SList(Pick({0, 1, 2, 15, 16}))
               [] kind = "nest" -> [k |-> "l", v |-> [i \in 1..Pick(0..3) |-> SList(Pick(0..2))]]
               [] kind = "pair" -> [k |-> "l", v |-> [i \in 1..Pick({2, 2, 2, 1, 3}) |-> I(Pick({0, 100, -100}))]]
               [] kind = "map" -> [k |-> "o", v |-> <<<<<<97>>, Any_(1)>>, <<<<>>, Any_(0)>>>>]
               [] kind \in {"mapint", "mapnam"} -> [k |-> "o", v |-> <<<<<<97>>, I(4)>>, <<<<98>>, I(-40)>>>>]
               [] OTHER -> Any_(2)
Sigs == <<<<"str", "int">>, <<"iface", "bin">>, <<"strs", "map">>, <<"int8", "uint8", "bool">>, <<>>, <<"f64", "uint64", "int64">>, <<"nest", "pair", "mapnam", "dur", "pstr">>>>
Args(kinds) == LET n == Pick({0, 0, 0, 0, 1, -1}) + Len(kinds) IN
               [i \in 1..n |-> IF Pick(1..12) = 1 THEN Any_(1) ELSE IF i <= Len(kinds) THEN For(kinds[i]) ELSE Any_(1)]
Insert(t, i, b) == SubSeq(t, 1, i) \o b \o SubSeq(t, i + 1, Len(t))
Cut(t, i, n) == SubSeq(t, 1, i) \o SubSeq(t, i + 1 + n, Len(t))
Codes == {0, 1, 127, 128, 129, 131, 144, 145, 160, 162, 191, 192, 193, 194, 196, 198, 199, 202, 203, 204, 207, 208, 211, 212, 216, 217, 219, 220, 221, 222, 223, 224, 255}
Damaged(t, how) ==
  LET i == IF t = <<>> THEN 0 ELSE Pick(0..Len(t) - 1)
      h == IF t = <<>> THEN 0 ELSE Pick(0..(IF Len(t) > 12 THEN 12 ELSE Len(t)) - 1) IN
  CASE how = "cut" -> Cut(t, i, 1)
    [] how = "short" -> SubSeq(t, 1, i)
    [] how = "put" -> Insert(Cut(t, i, 1), i, <<Pick(Codes)>>)
    [] how = "head" -> Insert(Cut(t, h, 1), h, <<Pick(Codes)>>)
    [] how = "ins" -> Insert(t, i, <<Pick(Codes)>>)
    [] how = "tail" -> t \o <<Pick(Codes)>>
    [] how = "noise" -> [j \in 1..Pick(0..6) |-> Pick(Codes)]
    [] OTHER -> t
(* maps that lack a field or have one of the wrong kind *)
Odd(p, w) == LET f == Fields(p, FALSE)
                 i == Pick(1..Len(f))
                 x == Pick(1..4) IN
  Pack([k |-> "o", v |-> IF x = 1 THEN SubSeq(f, 1, i - 1) \o SubSeq(f, i + 1, Len(f))
                         ELSE IF x = 2 THEN Append(f, <<<<111, 112>>, Any_(1)>>)
                         ELSE [f EXCEPT ![i] = <<@[1], Pick({I(0), I(4), I(7), I(-1), I(200), IVal(0), SVal(0), S(<<47>>), XVal(0), F64(0), [k |-> "z", v |-> <<>>], [k |-> "l", v |-> <<>>], [k |-> "l", v |-> <<IVal(0)>>], [k |-> "o", v |-> <<>>], [k |-> "?", v |-> <<1, 2>>]})>>]], w)
Texts == {<<34>>, <<44>>, <<123>>, <<125>>, <<91>>, <<48>>, <<57>>, <<45>>, <<110, 117, 108, 108>>, <<32>>, <<255>>, <<58>>, <<92>>}
DamText(t, how) == LET i == IF t = <<>> THEN 0 ELSE Pick(0..Len(t) - 1) IN
  CASE how = "cut" -> Cut(t, i, 1) [] how = "short" -> SubSeq(t, 1, i) [] how \in {"put", "head"} -> Insert(Cut(t, i, 1), i, Pick(Texts)) [] how \in {"ins", "noise"} -> Insert(t, i, Pick(Texts)) [] how = "tail" -> t \o Pick(Texts) [] OTHER -> t
Hows == <<"no", "no", "no", "no", "no", "no", "odd", "odd", "cut", "short", "put", "head", "ins", "tail", "noise">>
Nsps == IF Mode = "srv" THEN <<Slash, Slash, Slash, Slash, Slash, <<47, 97>>>> ELSE <<Slash, Slash, <<47, 97>>, <<47, 195, 169, 44>>, <<47, 97, 63, 120>>>>
JVal(u) == Pick({S(<<97>>), S(<<34>>), [k |-> "t", v |-> <<>>], [k |-> "l", v |-> <<S(<<98>>)>>], [k |-> "o", v |-> <<<<<<97>>, S(<<>>)>>>>]})
Init == fin = FALSE /\ hist = <<>>
Add(rec) == hist' = Append(hist, rec)
Item(ty, sig, how, w, n) ==
  LET free == [i \in 1..Pick(0..4) |-> Kinds[Pick(1..Len(Kinds))]]
      kinds == IF Mode = "srv" THEN Sigs[sig] ELSE free
      args == Args(kinds)
      type == <<CONNECT, DISCONNECT, ERROR, EVENT, EVENT, EVENT, EVENT, EVENT, EVENT, ACK>>[ty]
      data == type \in {EVENT, ACK}
      p == [type |-> type, nsp |-> Nsps[n], id |-> IF data /\ Pick(1..2) = 1 THEN Pick({Small(0), Small(9), UInt(<<200>>), UInt(<<1, 0, 0, 0, 0>>), UInt(<<255, 255, 255, 255, 255, 255, 255, 255>>)}) ELSE <<>>,
            name |-> IF type # EVENT THEN <<>> ELSE IF Mode = "srv" THEN <<101, 48 + sig>> ELSE Pick({<<101>>, <<195, 169>>, [i \in 1..40 |-> 110]}),
            args |-> IF data THEN args ELSE IF type = ERROR THEN <<JVal(0)>> ELSE <<>>]
      full == IF how = "odd" /\ data THEN Odd(p, w) ELSE Enc(p, w, Pick(BOOLEAN), Pick(0..3)) IN
  IF Mode = "enc" THEN [op |-> "enc", p |-> p]
  ELSE IF Pick(1..60) = 1 THEN [op |-> "deep", n |-> Pick({100, 5000, 200000, 15000000}), how |-> Pick({"list", "map"})]
  ELSE [op |-> "dec", bin |-> data, t |-> IF data THEN Damaged(full, how) ELSE DamText(EncText(p), how), kinds |-> kinds]
Next == \/ /\ Len(hist) < Depth /\ UNCHANGED fin
           /\ \E ty \in One(1..10), sig \in One(1..7), how \in One(1..Len(Hows)), w \in One({0, 0, 1, 2, 3}), n \in One(1..Len(Nsps)) : Add(Item(ty, sig, Hows[how], w, n))
        \/ Len(hist) = Depth /\ ~fin /\ fin' = TRUE /\ UNCHANGED hist
Spec == Init /\ [][Next]_<<fin, hist>>
Emit_ == fin => PrintT(<<"SCRIPT", ToJson(hist)>>)
=============================================================================
