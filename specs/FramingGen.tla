---------------------------- MODULE FramingGen ----------------------------
(* Payloads to post, well-formed and damaged, and requests of every kind to a polling session. *)
EXTENDS Framing, Json
CONSTANTS Depth, Mode
VARIABLES fin, hist
One(X) == {RandomElement(X)}
Pick(X) == RandomElement(X)
Rep(b, n) == [i \in 1..n |-> b]
RECURSIVE Times(_, _)
Times(t, n) == IF n = 0 THEN <<>> ELSE t \o Times(t, n - 1)
Texts == {<<>>, <<97>>, <<34>>, <<92>>, <<92, 110>>, <<10, 13>>, <<226, 128, 168>>, <<226, 128, 169, 120>>, <<195, 169>>, <<240, 159, 152, 128>>, <<60, 47, 115, 99, 114, 105, 112, 116, 62>>, <<49, 58, 52>>,
          <<98, 52>>, <<0>>, <<127>>, <<41, 59>>, Rep(97, 8), Rep(98, 9), Rep(99, 97), Rep(100, 98), Rep(101, 99), Rep(102, 998), Rep(103, 999), Times(<<195, 169>>, 49), <<39>>, <<50, 91, 34, 101, 34, 93>>}
Bins == {<<>>, <<0>>, <<255>>, <<1, 2>>, <<255, 254, 253>>, <<58, 52>>, Rep(255, 8), Rep(0, 9), [i \in 1..98 |-> i], Rep(7, 99), [i \in 1..256 |-> i - 1], Rep(200, 998), Rep(61, 5), Rep(250, 61), Rep(251, 70), Rep(252, 71), Rep(253, 72)}
Large == {4095, 4096, 4097, 9998, 9999, 12000}
Pkt(ty) == LET b == Pick(BOOLEAN) IN [type |-> ty, bin |-> b, data |-> IF Pick(1..60) = 1 THEN Rep(IF b THEN 200 ELSE 104, Pick(Large)) ELSE IF b THEN Pick(Bins) ELSE Pick(Texts)]
Ty(i) == IF Mode = "post" THEN Pick(0..6 \cup {i - i}) ELSE <<4, 4, 4, 4, 2, 2, 6, 3, 0, 5>>[Pick(1..(10 + i - i))]
Insert(t, i, b) == SubSeq(t, 1, i) \o b \o SubSeq(t, i + 1, Len(t))
Cut(t, i, n) == SubSeq(t, 1, i) \o SubSeq(t, i + 1 + n, Len(t))
Codes == {0, 1, 2, 5, 9, 10, 13, 43, 45, 47, 48, 49, 50, 57, 58, 61, 65, 98, 255}
Damaged(t, how) ==
  LET i == IF t = <<>> THEN 0 ELSE Pick(0..Len(t) - 1)
      h == IF t = <<>> THEN 0 ELSE Pick(0..(IF Len(t) > 5 THEN 5 ELSE Len(t)) - 1) IN
  CASE how = "cut" -> Cut(t, i, 1) [] how = "short" -> SubSeq(t, 1, i)
    [] how = "put" -> Insert(Cut(t, i, 1), i, <<Pick(Codes)>>) [] how = "head" -> Insert(Cut(t, h, 1), h, <<Pick(Codes)>>)
    [] how = "ins" -> Insert(t, i, <<Pick(Codes)>>) [] how = "hins" -> Insert(t, h, <<Pick(Codes)>>)
    [] how = "tail" -> t \o <<Pick(Codes)>> [] how = "last" -> IF t = <<>> THEN t ELSE SubSeq(t, 1, Len(t) - 1)
    [] how = "noise" -> [j \in 1..Pick(1..7) |-> Pick(Codes)]
    [] how = "big" -> (IF Pick(BOOLEAN) THEN <<57, 57, 57, 57, 57, 57, 57, 57, 57, 57, 57, 57, 57, 57, 57, 57, 57, 57, 57, 57>> ELSE <<0, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9>>) \o t
    [] OTHER -> t
Hows == <<"no", "no", "no", "no", "no", "no", "no", "no", "cut", "short", "put", "head", "ins", "hins", "tail", "last", "noise", "big">>
Post(bin, n) ==
        LET ps == [i \in 1..n |-> Pkt(Ty(i))]
            full == IF bin THEN EncBin(ps) ELSE EncText(ps) IN
        [op |-> "post", bin |-> bin, body |-> Damaged(full, Hows[Pick(1..Len(Hows))]), chunk |-> Pick({0, 1, 2, 7, 100}),
         ct |-> IF Mode = "post" \/ Pick(1..4) > 1 THEN "good" ELSE Pick({"good2", "none", "json", "plain", "latin", "odd", "form", "html"})]
(* packets of more than a megabyte: only their sizes are given *)
Sizes == {0, 1, 99997, 99998, 99999, 100000, 262144, 999998, 999999, 1000000, 1048575, 1048577, 4194305}
Bulk(bin, n) == [op |-> "bulk", bin |-> bin, ps |-> [i \in 1..n |-> [type |-> Pick({4, 4 + n - n, 2}), bin |-> Pick(BOOLEAN), len |-> IF n > 3 THEN Pick(0..20) ELSE Pick(Sizes)]],
                 chunk |-> Pick({0, 0 + n - n, 5000, 65536}), cut |-> Pick({0, n - n, 1})]
Indexes == {<<48>>, <<55>>, <<49, 50>>, <<57, 57, 57, 57, 57, 57, 57, 57, 57, 57, 57>>}
Poll(m) ==
        [op |-> "poll", mode |-> m, form |-> Pick(IF m = "" THEN {0} ELSE 0..2),
         j |-> IF m = "jsonp" THEN Pick(Indexes) ELSE IF m = "badj" THEN Pick({<<97>>, <<45, 49>>, <<48, 120, 49>>, <<49, 93, 59>>, <<49, 46, 53>>, <<49, 32>>, <<239, 188, 145>>, <<43, 49>>}) ELSE <<>>]
Modes == <<"bin", "bin", "b64", "b64", "jsonp", "jsonp", "jsonp", "badj">>
Item(x, bin, n, m) ==
  IF Mode = "post" THEN (IF Pick(1..(30 + n - n)) = 1 THEN Bulk(bin, IF Pick(1..(3 + n - n)) = 1 THEN 300 ELSE Pick(1..3)) ELSE Post(bin, n))
  ELSE CASE x <= 3 -> [op |-> "send", p |-> Pkt(4)] [] x <= 6 -> Poll(Modes[m]) [] x <= 9 -> Post(bin, 1 + (n % 3))
         [] OTHER -> [op |-> "method", m |-> <<"PUT", "DELETE", "HEAD", "OPTIONS", "PATCH", "FOO", "PUT", "DELETE">>[m]]
Init == fin = FALSE /\ hist = <<>>
Next == \/ Len(hist) < Depth /\ UNCHANGED fin /\ \E x \in One(1..10), bin \in One(BOOLEAN), n \in One({0, 1, 2, 3, 5, 8, 9, 12}), m \in One(1..8) : hist' = Append(hist, Item(x, bin, n, m))
        \/ Len(hist) = Depth /\ ~fin /\ fin' = TRUE /\ UNCHANGED hist
Spec == Init /\ [][Next]_<<fin, hist>>
Emit_ == fin => PrintT(<<"SCRIPT", ToJson(hist)>>)
=============================================================================
