----------------------------- MODULE SioTextGen -----------------------------
(* Packets to encode, and texts to decode: well-formed ones and damaged ones, each with the attachments it announces. *)
EXTENDS SioText, Json
CONSTANTS Depth, Mode
VARIABLES fin, hist
One(X) == {RandomElement(X)}
Pick(X) == RandomElement(X)
S(b) == [k |-> "s", v |-> b]
Strings == {<<>>, <<97>>, <<34>>, <<92>>, <<44, 123, 34>>, <<195, 169>>, <<226, 128, 168>>, <<240, 159, 152, 128>>, <<60, 38, 62>>, <<1, 10, 9>>, <<93, 91>>, <<48>>,
            <<123, 34, 95, 112, 108, 97, 99, 101, 104, 111, 108, 100, 101, 114, 34, 58, 116>>, <<32, 120, 32>>, <<47, 97, 44>>}
Numbers == {<<48>>, <<49>>, <<45, 49>>, <<49, 50, 51, 52, 53, 54, 55, 56, 57, 48, 49, 50>>, <<48, 46, 53>>, <<45, 51, 46, 50, 53>>}
RECURSIVE Value_(_)
Value_(d) == LET x == Pick(1..12) IN
  CASE x <= 4 \/ (d = 0 /\ x > 9) -> S(Pick(Strings))
    [] x <= 6 -> [k |-> "#", v |-> Pick(Numbers)]
    [] x = 7 -> [k |-> "t", v |-> <<>>] [] x = 8 -> [k |-> "f", v |-> <<>>] [] x = 9 -> [k |-> "z", v |-> <<>>]
    [] x = 10 -> [k |-> "l", v |-> [i \in 1..Pick(0..3) |-> Value_(d - 1)]]
    [] x = 11 -> [k |-> "o", v |-> <<<<Pick(Strings), Value_(d - 1)>>>>]
    [] OTHER -> [k |-> "o", v |-> <<<<<<97>>, Value_(d - 1)>>, <<<<98, 34>>, Value_(d - 1)>>>>]
Names == {[i \in 1..300 |-> 97 + (i % 26)], <<101>>, <<101>>, <<109, 115, 103>>, <<34, 44, 93>>, <<195, 169, 32, 92>>, <<91>>, <<10>>}
Nsps == {Slash, Slash, Slash, <<47, 97>>, <<47, 99, 32, 100>>, <<47, 195, 169>>, <<47, 97, 63, 120, 61, 49, 38, 121>>, <<47, 49>>, <<47, 63, 113>>, <<47, 47>>}
Clean == {n \in Nsps : 63 \notin {n[i] : i \in 1..Len(n)}}
Ids == {<<>>, <<>>, <<48>>, <<55>>, <<49, 50, 51, 52, 53>>, U64}
Arg(bin) == IF bin /\ Pick(1..2) = 1 THEN [k |-> "p", v |-> <<0>>] ELSE Value_(2)
Num(args) == [i \in 1..Len(args) |-> IF IsP(args[i]) THEN [k |-> "p", v |-> <<Count(SubSeq(args, 1, i - 1))>>] ELSE args[i]]
Packet(ty, ns, id, nm, q) ==
  LET data == ty \in {EVENT, ACK, BINEVENT, BINACK}
      a == IF data THEN Num(q) ELSE SelectSeq(q, LAMBDA v : v.k \notin {"#", "z"})
      n == Count(a)
      t2 == IF n = 0 /\ ty >= BINEVENT THEN ty - 3 ELSE ty IN
  [type |-> t2, nsp |-> ns, id |-> IF data THEN id ELSE <<>>, name |-> IF t2 \in {EVENT, BINEVENT} THEN nm ELSE <<>>,
   args |-> IF data \/ a = <<>> THEN a ELSE <<a[1]>>, n |-> n]
(* tokens to put into a text *)
Tokens == {<<34>>, <<44>>, <<91>>, <<93>>, <<123>>, <<125>>, <<92>>, <<58>>, <<45>>, <<47>>, <<63>>, <<32>>, <<0>>, <<48>>, <<57, 57>>, <<92, 117, 48, 48, 52, 49>>, <<92, 110>>, <<255>>,
           <<92, 117, 100, 56, 51, 100, 92, 117, 100, 101, 48, 48>>, <<92, 117, 100, 56, 51, 100>>, <<110, 117, 108, 108>>, <<34, 34>>, <<44, 44>>, <<92, 120>>, Placeholder \o <<48, 125>>,
           <<44>> \o Placeholder \o <<49, 125>>, <<49, 56, 52, 52, 54, 55, 52, 52, 48, 55, 51, 55, 48, 57, 53, 53, 49, 54, 49, 54>>}
Insert(t, i, w) == SubSeq(t, 1, i) \o w \o SubSeq(t, i + 1, Len(t))
Cut(t, i, n) == SubSeq(t, 1, i) \o SubSeq(t, i + 1 + n, Len(t))
Damaged(t, how) ==
  LET i == IF t = <<>> THEN 0 ELSE Pick(0..Len(t) - 1)
      h == IF t = <<>> THEN 0 ELSE Pick(0..(IF Len(t) > 6 THEN 6 ELSE Len(t)) - 1) IN
  CASE how = "cut" -> Cut(t, i, 1)
    [] how = "cut2" -> Cut(t, i, Pick(2..4))
    [] how = "short" -> SubSeq(t, 1, i)
    [] how = "put" -> Insert(Cut(t, i, 1), i, Pick(Tokens))
    [] how = "ins" -> Insert(t, i, Pick(Tokens))
    [] how = "head" -> Insert(Cut(t, h, 1), h, Pick(Tokens))
    [] how = "headins" -> Insert(t, h, Pick(Tokens))
    [] how = "type" -> <<Pick({47, 48, 49, 50, 51, 52, 53, 54, 55, 57, 58, 0, 255, 97})>> \o Cut(t, 0, 1)
    [] how = "tail" -> t \o Pick(Tokens)
    [] how = "count" -> IF Len(t) > 1 /\ t[1] \in {53, 54} THEN <<t[1], Pick({48, 49, 50, 51, 57, 45})>> \o SubSeq(t, 3, Len(t)) ELSE <<t[1] + 3>> \o Tail(t)
    [] how = "noise" -> [j \in 1..Pick(0..6) |-> Pick({34, 44, 48, 50, 53, 45, 91, 93, 123, 125, 47, 97, 255, 0})]
    [] how = "name" -> <<50, 91>> \o Pick({<<>>, <<34, 34>>, <<53>>, <<110, 117, 108, 108>>, <<123, 125>>, <<91, 93>>, <<34, 101>>, <<101>>}) \o Pick({<<93>>, <<44, 49, 93>>, <<>>})
    [] OTHER -> t
Hows == <<"no", "no", "no", "no", "cut", "cut2", "short", "put", "ins", "head", "headins", "type", "tail", "count", "noise", "name", "cut", "put", "nameless">>
(* a binary event whose list begins with something other than a name *)
Nameless(p, gap) == LET first == Pick({"p", "p", "p", "z", "l"})
                        a == Num(<<IF first = "l" THEN [k |-> "l", v |-> <<S(p.name)>>] ELSE [k |-> first, v |-> <<0>>], S(p.name)>> \o p.args)
                        t == Enc([p EXCEPT !.type = BINACK, !.name = <<>>, !.args = [i \in 1..Len(a) |-> IF a[i].k = "z" THEN [k |-> "z", v |-> <<>>] ELSE a[i]], !.n = Count(a)], gap) IN
                    [t EXCEPT ![1] = 48 + BINEVENT]
DecodeItem(p, how, gap) == LET t == IF how = "nameless" /\ p.type = BINEVENT THEN Nameless(p, gap) ELSE Damaged(Enc(p, gap), how)
                               d == Dec(t) IN
  [op |-> "dec", t |-> t, bins |-> IF d.n <= 16 THEN d.n ELSE Pick(0..2), extra |-> IF Pick(1..6) = 1 THEN 1 ELSE 0]
EncodeItem(p) == [op |-> "enc", p |-> p]
Init == fin = FALSE /\ hist = <<>>
Add(rec) == hist' = Append(hist, rec)
Next == \/ /\ Len(hist) < Depth /\ UNCHANGED fin
           /\ \E ty \in One(0..9), nm \in One(IF Mode = "srv" THEN {<<101>>, <<34, 44, 93>>, <<195, 169, 32, 92>>} ELSE Names), id \in One(Ids),
              ns \in One(IF Mode = "srv" /\ Pick(1..8) > 1 THEN {Slash, Slash, <<47, 63, 113>>} ELSE Nsps), nc \in One(Clean), k \in One({0, 1, 2, 3, 4, 2, 3, 12}), how \in One(1..Len(Hows)), gap \in One({<<>>, <<>>, <<32>>, <<10, 9>>}) :
              LET type == (IF Mode = "srv" THEN <<CONNECT, DISCONNECT, EVENT, EVENT, EVENT, EVENT, ERROR, BINEVENT, BINEVENT, BINEVENT>>
                          ELSE <<CONNECT, DISCONNECT, EVENT, EVENT, EVENT, ACK, ERROR, BINEVENT, BINEVENT, BINACK>>)[ty + 1]
                  q == [i \in 1..k |-> Arg(type >= BINEVENT)] IN
              Add(IF Mode = "enc" THEN EncodeItem(Packet(type, nc, id, nm, q)) ELSE DecodeItem(Packet(type, ns, id, nm, q), Hows[how], gap))
        \/ Len(hist) = Depth /\ ~fin /\ fin' = TRUE /\ UNCHANGED hist
Spec == Init /\ [][Next]_<<fin, hist>>
Emit_ == fin => PrintT(<<"SCRIPT", ToJson(hist)>>)
=============================================================================
