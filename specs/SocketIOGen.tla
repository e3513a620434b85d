---------------------------- MODULE SocketIOGen ----------------------------
(* Scripts for a Socket.IO end and its peers: packets of every kind over several namespaces and sessions, sends of the  *)
(* application, acknowledgements in any order, held callbacks and every kind of end.                                    *)
EXTENDS SioTable, FiniteSets, TLC, Json
CONSTANTS Depth, Profile, NS, Role, Par
VARIABLES fin, hist, st, att, blocked, sent
vars == <<fin, hist, st, att, blocked, sent>>
Sess == 1..NS
One(X) == {RandomElement(X)}
Do(rec) == hist' = Append(hist, rec)
Init == fin = FALSE /\ hist = <<>> /\ st = [s \in Sess |-> "none"] /\ att = [s \in Sess |-> {}] /\ blocked = {} /\ sent = [s \in Sess |-> 0]
Live(s) == st[s] = "open"
Same == UNCHANGED <<st, att, blocked, sent>>
Foreign == {"/u", "/A", "/a/", "/ab"}     \* not registered
All(u) == IF RandomElement(1..4) = 1 THEN Foreign ELSE Nsps
Kinds == {"s", "#", "f", "b", "n", "x", "ls", "l", "m"}
Now(u) == One({TRUE, FALSE, FALSE})     \* the next step need not wait for this one

KindFor(t) == CASE t = "str" -> "s" [] t = "int" -> "#" [] t = "bool" -> "b" [] t = "bin" -> "x" [] t = "strs" -> "ls" [] t = "map" -> "m"
                [] OTHER -> RandomElement(Kinds)
FitKinds(sig) == LET q == SelectSeq(sig, LAMBDA t : t \notin {"S", "unregistered"}) IN [i \in 1..Len(q) |-> KindFor(q[i])]
Random(n) == [i \in 1..n |-> RandomElement(Kinds)]
(* arguments that fit, or too few, too many, none, moved about, or anything *)
Mangle(q, how) ==
  CASE how <= 4 -> q
    [] how = 5 -> IF q = <<>> THEN q ELSE SubSeq(q, 1, Len(q) - 1)
    [] how = 6 -> q \o Random(2)
    [] how = 7 -> [i \in 1..Len(q) |-> IF RandomElement({TRUE, FALSE}) THEN "n" ELSE q[i]]
    [] how = 8 -> SelectSeq(q, LAMBDA k : k = "x") \o SelectSeq(q, LAMBDA k : k # "x")
    [] how = 9 -> SelectSeq(q, LAMBDA k : k # "x") \o <<"x">> \o SelectSeq(q, LAMBDA k : k = "x")
    [] how = 10 -> q \o [i \in 1..12 |-> RandomElement({"x", "x", "s"})]
    [] OTHER -> Random(RandomElement(0..4))
How(u) == One(IF Profile = "binary" THEN {1, 8, 8, 9, 9, 5, 6, 10} ELSE 1..11)
EvName(u) == One(IF Profile = "binary" THEN {"bin", "binmix", "binmix", "any"}
              ELSE {"none", "str", "str", "mix", "mid", "bin", "binmix", "any", "st", "Str", "onlya", "nobody", "strs", "STR", " str", "str ", "stra", Odd})
EvNsp(s) == One(IF RandomElement(1..4) = 1 \/ att[s] = {} THEN All(0) ELSE att[s])

Event(s) == \E name \in EvName(s), nsp \in EvNsp(s), how \in How(s), id \in One({TRUE, FALSE}), gap \in One({0, 0, 1}), now \in Now(s) :
  Live(s) /\ Do([op |-> "event", s |-> s, nsp |-> nsp, name |-> name, kinds |-> Mangle(FitKinds(Sig(nsp, name)), how), id |-> id, gap |-> gap, now |-> now]) /\ Same
(* a handler that uses its socket *)
Act(s) == \E what \in One({"emit", "ack", "other", "error", "many"}), nsp \in EvNsp(s) :
  Live(s) /\ Do([op |-> "act", s |-> s, nsp |-> nsp, what |-> what, other |-> RandomElement(Sess), id |-> RandomElement({TRUE, FALSE})]) /\ Same
Connect(s) == \E nsp \in One(All(0)), now \in Now(s) :
  /\ Live(s) /\ s \notin blocked /\ Do([op |-> "connect", s |-> s, nsp |-> nsp, now |-> now])
  /\ att' = [att EXCEPT ![s] = IF nsp \in Nsps THEN @ \cup {nsp} ELSE @] /\ UNCHANGED <<st, blocked, sent>>
Disconnect(s) == \E nsp \in One(All(0)), now \in Now(s) :
  /\ Live(s) /\ s \notin blocked /\ Do([op |-> "disconnect", s |-> s, nsp |-> nsp, now |-> now])
  /\ att' = [att EXCEPT ![s] = @ \ {nsp}] /\ UNCHANGED <<st, blocked, sent>>
(* the answer to a request: pick says to which; ids nobody uses, ids of other namespaces and ids used up as well *)
Ack(s) == \E pick \in One({"first", "last", "any", "any", "any", "used", "unknown", "foreign"}), how \in How(s), nsp \in One(Nsps), now \in Now(s), gap \in One({0, 1}) :
  Live(s) /\ Do([op |-> "ack", s |-> s, pick |-> pick, nsp |-> nsp, how |-> how, kinds |-> Random(2), now |-> now, gap |-> gap]) /\ Same
Error(s) == \E nsp \in One(Nsps) : Live(s) /\ Do([op |-> "error", s |-> s, nsp |-> nsp]) /\ Same
Bad(s) == \E cls \in One({"decode", "args"}) : Live(s) /\ Do([op |-> "bad", s |-> s, cls |-> cls]) /\ Same
(* the application sends, from one goroutine or several *)
Emit(s) == \E nsp \in One(All(0)), ak \in One(AckKinds \cup {""}), n \in One({0, 1, 2, 3, 4, 4, 14}) :
  /\ st[s] # "none" /\ s \notin blocked /\ Do([op |-> "emit", s |-> s, nsp |-> nsp, ak |-> ak, kinds |-> IF n > 4 THEN [i \in 1..n |-> RandomElement({"x", "x", "x", "#"})] ELSE Random(n), err |-> RandomElement(1..8) = 1])
  /\ sent' = [sent EXCEPT ![s] = @ + 1] /\ UNCHANGED <<st, att, blocked>>
Burst(s) == \E n \in One({2, 4, 8}), each \in One(1..4), nsp \in One(Nsps) :
  Live(s) /\ s \notin blocked /\ Do([op |-> "burst", s |-> s, n |-> n, each |-> each, nsp |-> nsp]) /\ sent' = [sent EXCEPT ![s] = @ + n] /\ UNCHANGED <<st, att, blocked>>
Block(s) == Live(s) /\ s \notin blocked /\ Do([op |-> "block", s |-> s]) /\ blocked' = blocked \cup {s} /\ UNCHANGED <<st, att, sent>>
Unblock(s) == s \in blocked /\ Do([op |-> "unblock", s |-> s]) /\ blocked' = blocked \ {s} /\ UNCHANGED <<st, att, sent>>
End(s) == \E how \in One({"closepkt", "drop", "close", "closeact", "badframe", "silence"}) :
  /\ Live(s) /\ s \notin blocked /\ (Role = "client" => how # "closeact" \/ "/" \in att[s]) /\ (how = "closeact" => "/" \in att[s])
  /\ (how = "silence" => blocked = {})
  /\ Do([op |-> "end", s |-> s, how |-> how]) /\ st' = [st EXCEPT ![s] = "over"] /\ UNCHANGED <<att, blocked, sent>>
Begin == \E s \in Sess, tr \in One(IF Role = "client" THEN {"websocket"} ELSE {"websocket", "websocket", "polling"}), greet \in One({0, 0, 1, 3}) :
  /\ st[s] = "none" /\ \A r \in 1..s-1 : st[r] # "none"
  /\ Do([op |-> "open", s |-> s, tr |-> tr, greet |-> greet]) /\ st' = [st EXCEPT ![s] = "open"]
  /\ att' = [att EXCEPT ![s] = IF Role = "server" THEN {"/"} ELSE {}] /\ UNCHANGED <<blocked, sent>>
Late == Len(hist) > (Depth * 2) \div 3
Ops == \E s \in Sess :
  \/ CASE Profile = "events"  -> Event(s) \/ Event(s) \/ Event(s) \/ Connect(s) \/ Act(s) \/ Bad(s)
       [] Profile = "nsps"    -> Connect(s) \/ Connect(s) \/ Disconnect(s) \/ Event(s) \/ Emit(s) \/ Act(s) \/ Error(s)
       [] Profile = "acks"    -> Emit(s) \/ Emit(s) \/ Burst(s) \/ Ack(s) \/ Ack(s) \/ Ack(s) \/ Connect(s) \/ Event(s) \/ Act(s)
       [] Profile = "binary"  -> Event(s) \/ Event(s) \/ Emit(s) \/ Burst(s) \/ Burst(s) \/ Ack(s) \/ Connect(s) \/ Act(s)
       [] Profile = "many"    -> Event(s) \/ Connect(s) \/ Emit(s) \/ Ack(s) \/ Act(s) \/ Act(s) \/ Block(s) \/ Unblock(s) \/ Burst(s)
       [] Profile = "ends"    -> Event(s) \/ Connect(s) \/ Emit(s) \/ Ack(s) \/ Disconnect(s) \/ Act(s)
  \/ (Late /\ Profile # "events" /\ End(s))
Next == \/ Len(hist) < Depth /\ (Begin \/ ((\E s \in Sess : st[s] # "none") /\ Ops)) /\ UNCHANGED fin
        \/ Len(hist) = Depth /\ ~fin /\ fin' = TRUE /\ UNCHANGED <<hist, st, att, blocked, sent>>
Spec == Init /\ [][Next]_vars
Emit_ == fin => PrintT(<<"SCRIPT", ToJson(hist)>>)
=============================================================================
