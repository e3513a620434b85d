---------------------------- MODULE AdmissionGen ----------------------------
(* Requests of every kind, alone and many at once, to servers with origin checks, before and after they are closed.      *)
EXTENDS Admission, Json
CONSTANTS Depth, Mode
VARIABLES fin, hist
One(X) == {RandomElement(X)}
Pick(X) == RandomElement(X)
Origins == {"", "http://a", "http://b", "https://a", "http://a.b", "null"}
Check(k) == IF k = 0 THEN <<"any">> ELSE IF k = 1 THEN <<"http://a">> ELSE IF k = 2 THEN <<"http://a", "http://b", "">> ELSE IF k = 3 THEN <<>> ELSE <<"">>
Cfg(n, good) == [op |-> "cfg", interval |-> Pick({25000, 1000, 7, 86400000}), timeout |-> Pick({60000, 1, 5000, 999999}), nils |-> Pick({0, 0, 0, 1, 2}),
                 checks |-> [i \in 1..n |-> Check(IF good THEN Pick({0, 2}) ELSE Pick(0..4))]]
(* most of what is said is right, so that what is wrong is the only thing wrong *)
Say(right, X) == IF Pick(1..7) > 1 THEN right ELSE Pick(X)
Tr(x) == Pick({"polling", "websocket"} \cup {x})
Req(x) == [op |-> "req", method |-> Say("GET", {"POST", "PUT", "HEAD", "DELETE", "OPTIONS", "CONNECT"}),
        eio |-> Say("3", {"", "2", "4", "03", "3.0", "33", "-3", "three", " 3"}),
        tr |-> IF Pick(1..8) > 1 THEN Tr("polling") ELSE Pick({"", "Polling", "WEBSOCKET", "websockets", "flashsocket", "polling "}),
        sid |-> Pick({"none", "none2", x}), how |-> Pick({"random", "suffix", "prefix", "lower", "ended", "ended2", "spaces", "long", "utf8"}),
        which |-> Pick(1..6), origin |-> Pick(Origins),
        hs |-> Say("good", {"noupgrade", "noconn", "badver", "nokey"}), mode |-> Pick({"bin", "b64", "jsonp"})]
Item(x) == CASE x <= 11 -> Req(Pick({"none", "none3"})) [] x <= 15 -> Req(Pick({"live", "gone"})) [] x <= 17 -> [Req("none") EXCEPT !.sid = Pick({"live", "gone", "gone2"})]
        [] x = 18 -> [op |-> "burst", n |-> Pick({2, 5, 20}), ws |-> Pick({0, 1, 2}), origin |-> Pick(Origins), race |-> FALSE, junk |-> Pick(BOOLEAN)]
        [] x <= 20 -> [op |-> "end", which |-> Pick(1..6), how |-> Pick({"peer", "app", "time"})]
        [] OTHER -> IF Pick(1..2) = 1 THEN [op |-> "close"] ELSE [op |-> "burst", n |-> Pick({2, 5, 12}), ws |-> Pick({0, 1, 2}), origin |-> Pick(Origins), race |-> TRUE, junk |-> FALSE]
Some(x) == IF Pick(1..(300 + x - x)) = 1 THEN [op |-> "crowd", n |-> Pick({6000, 20, 200, 299 + x - x, 500, 1000}), mess |-> Pick({TRUE, x # x})] ELSE Item(x)
Init == fin = FALSE /\ \E n \in One(0..3), g \in One(1..4) : hist = <<Cfg(n, g > 1)>>
Next == \/ Len(hist) < Depth /\ UNCHANGED fin /\ \E x \in One(1..21) : hist' = Append(hist, Some(x))
        \/ Len(hist) = Depth /\ ~fin /\ fin' = TRUE /\ UNCHANGED hist
Spec == Init /\ [][Next]_<<fin, hist>>
Emit_ == fin => PrintT(<<"SCRIPT", ToJson(hist)>>)
=============================================================================
