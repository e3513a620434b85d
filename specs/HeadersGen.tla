----------------------------- MODULE HeadersGen -----------------------------
(* Sessions opened with headers of every kind, values set and read under names in any case, and upgrades.                *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Depth, Mode
VARIABLES fin, hist, st
One(X) == {RandomElement(X)}
Pick(X) == RandomElement(X)
Names == {"cookie", "authorization", "x-a", "x-b", "x-forwarded-for", "accept-language", "x"}
Values == {"", "1", "two words", "a=b; c=d", "v1", "v2", "v3", "v4", "v5", "\"q\"", "x,y"}
Hdr(x) == [n |-> Pick(Names), v |-> Pick(Values \cup {x})]
Req(n) == IF n = 4 /\ Pick(1..(4 + n - n)) = 1 THEN [i \in 1..80 |-> IF i % 20 = 0 THEN Hdr("v6") ELSE [n |-> "x-h" \o ToString(i), v |-> "v" \o ToString(i)]]
          ELSE [i \in 1..n |-> Hdr("v6")]
Sess == 1..4
Init == fin = FALSE /\ hist = <<>> /\ st = [s \in Sess |-> "none"]
Do(rec) == hist' = Append(hist, rec)
Open(s) == st[s] = "none" /\ \E n \in One(0..4), tr \in One(IF Mode = "client" THEN {"client"} ELSE {"polling", "polling", "websocket"}) :
              Do([op |-> "open", s |-> s, tr |-> tr, q |-> Req(n)]) /\ st' = [st EXCEPT ![s] = tr]
Set(s) == st[s] # "none" /\ \E x \in One(1..10) : Do([op |-> "set", s |-> s, n |-> IF x = 1 THEN "x-h3" ELSE Hdr("s").n, v |-> Hdr("s").v, case |-> Pick(0..3), at |-> Pick({"s", IF Mode = "client" THEN "c" ELSE "s"})]) /\ UNCHANGED st
Get(s) == st[s] # "none" /\ \E x \in One(1..10) : Do([op |-> "get", s |-> s, n |-> Pick(Names \cup {"x-none", "x-h1", "x-h30", "x-h" \o ToString(x)}), case |-> Pick(0..3), at |-> Pick({"s", IF Mode = "client" THEN "c" ELSE "s"})]) /\ UNCHANGED st
Noise(s) == st[s] = "polling" /\ \E n \in One(0..3), k \in One({"poll", "post", "failed"}) : Do([op |-> k, s |-> s, q |-> Req(n)]) /\ UNCHANGED st
Upgrade(s) == st[s] = "polling" /\ \E n \in One(0..4), sets \in One({0, 0, 1, 3}) :
                Do([op |-> "upgrade", s |-> s, q |-> Req(n), sets |-> [i \in 1..sets |-> Hdr("v7")]]) /\ st' = [st EXCEPT ![s] = "websocket"]
Ops == \E s \in Sess : Open(s) \/ Set(s) \/ Get(s) \/ Get(s) \/ Noise(s) \/ Upgrade(s)
Next == \/ Len(hist) < Depth /\ Ops /\ UNCHANGED fin
        \/ Len(hist) = Depth /\ ~fin /\ fin' = TRUE /\ UNCHANGED <<hist, st>>
Spec == Init /\ [][Next]_<<fin, hist, st>>
Emit_ == fin => PrintT(<<"SCRIPT", ToJson(hist)>>)
=============================================================================
