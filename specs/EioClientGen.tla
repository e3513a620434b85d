---------------------------- MODULE EioClientGen ----------------------------
(* Scripts for an engine.io client and the server it dials. *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Depth, Profile
VARIABLES fin, hist, ph, big
One(X) == {RandomElement(X)}
Do(rec) == hist' = Append(hist, rec)
Init == fin = FALSE /\ hist = <<>> /\ ph = "none" /\ big = FALSE
Times == {<<25000, 60000>>, <<5000, 3000>>, <<100, 50>>, <<1000, 20000>>, <<300, 300>>, <<60000, 1>>, <<20, 500>>}
Types == {"open", "close", "ping", "pong", "message", "upgrade", "noop"}
Jsons == {"params", "truncated", "array", "string", "number", "badsid", "badint", "badtmo", "badupg", "empty", "garbage", "trailing"}
Dial == \E t \in One(Times), good \in One(IF Profile = "dial" THEN {TRUE, FALSE, FALSE, FALSE} ELSE {TRUE}), typ \in One(IF RandomElement({big, ~big}) THEN Types ELSE {"open"}), json \in One(Jsons),
           early \in One({0, 0, 1, 2, 5}), how \in One({"packet", "packet", "packet", "packet", "refuse", "drop", "unknown", "badframe"}), after \in One({"", "drop", "close", ""}) :
  /\ ph = "none" /\ ph' = "up"
  /\ Do([op |-> "dial", int |-> t[1], tmo |-> t[2], t |-> IF good THEN "open" ELSE typ, json |-> IF good \/ (typ # "open" /\ RandomElement({TRUE, FALSE})) THEN "params" ELSE json,
         how |-> IF good THEN "packet" ELSE how, early |-> early, after |-> after])
(* time passes: to just before, exactly to or beyond the next ping or the deadline *)
Adv == \E k \in One({"little", "ping-", "ping", "ping+", "dead-", "dead", "dead+", "half", "half"}) : ph = "up" /\ Do([op |-> "adv", k |-> k]) /\ UNCHANGED ph
Tx == \E t \in One({"message", "message", "message", "pong", "noop", "ping", "upgrade"}), n \in One({1, 1, 2, 6}) : ph = "up" /\ Do([op |-> "tx", t |-> t, n |-> n]) /\ UNCHANGED ph
Sends == \E n \in One({1, 1, 2, 6}) : ph = "up" /\ Do([op |-> "send", n |-> n]) /\ UNCHANGED ph
End == \E how \in One({"closepkt", "drop", "close", "closeincb", "badframe", "closeframe"}), n \in One({0, 0, 1, 3}) :
  /\ ph = "up" /\ Len(hist) > Depth \div 2 /\ Do([op |-> "end", how |-> how, n |-> n]) /\ UNCHANGED ph
Alive == ph = "up" /\ Do([op |-> "alive"]) /\ UNCHANGED ph    \* the server answers a while: half intervals with a pong each
Next == \/ Len(hist) < Depth /\ (Dial \/ Adv \/ Adv \/ Alive \/ Tx \/ Sends \/ End) /\ UNCHANGED <<fin, big>>
        \/ Len(hist) = Depth /\ ~fin /\ fin' = TRUE /\ UNCHANGED <<hist, ph, big>>
Spec == Init /\ [][Next]_<<fin, hist, ph, big>>
Emit_ == fin => PrintT(<<"SCRIPT", ToJson(hist)>>)
=============================================================================
