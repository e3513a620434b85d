---------------------------- MODULE PollConnGen ----------------------------
(* Environment scripts for the real polling connection: behaviours of PollConn, of which the operations are kept. *)
EXTENDS PollConn, Json
CONSTANTS Depth
VARIABLES hist, nextId
vars == <<cvars, hist, nextId>>
Init == CInit /\ hist = <<>> /\ nextId = 1
i0 == Len(hist) + 1
New(k) == [j \in 1..k |-> nextId + j - 1]
Do(rec) == hist' = Append(hist, rec)
Env ==
  /\ Len(hist) < Depth /\ Settled
  /\ \/ Do([op |-> "read"]) /\ StartRead(i0) /\ UNCHANGED nextId
     \/ \E k \in {1, 3, 8, 9} : Do([op |-> "write", k |-> k]) /\ StartWrite(i0, New(k)) /\ nextId' = nextId + k
     \/ Do([op |-> "poll"]) /\ StartPoll(i0) /\ UNCHANGED nextId
     \/ /\ Do([op |-> "deadpoll"]) /\ UNCHANGED <<in, out, paused, closed, rdl, wdl, now, nextId>>
        /\ Add(i0, [kind |-> "poll", rem |-> <<>>, dl |-> Never, cx |-> TRUE])
     \/ \E k \in {1, 3, 8, 9} : Do([op |-> "post", k |-> k]) /\ StartPost(i0, New(k)) /\ nextId' = nextId + k
     \/ \E i \in DOMAIN pend : Do([op |-> "cancel"]) /\ Cancel(i) /\ UNCHANGED nextId
     \/ Do([op |-> "pause"]) /\ Pause /\ UNCHANGED nextId
     \/ Do([op |-> "resume"]) /\ Resume /\ UNCHANGED nextId
     \/ Len(hist) > Depth \div 2 /\ ~closed /\ Do([op |-> "close"]) /\ Close /\ UNCHANGED nextId
     \/ \E kind \in {"read", "write"}, d \in {-1, 0, 10, 30} :
          /\ \A i \in DOMAIN pend : pend[i].kind # kind
          /\ Do([op |-> IF kind = "read" THEN "rdl" ELSE "wdl", d |-> d])
          /\ LET dl == IF d = 0 THEN Never ELSE IF d < 0 THEN 0 ELSE now + d
             IN SetDeadline(kind, dl, IF closed THEN "closed" ELSE IF paused THEN "paused" ELSE "ok")
          /\ UNCHANGED nextId
     \/ \E d \in {5, 20} : Do([op |-> "adv", d |-> d]) /\ now' = now + d /\ UNCHANGED <<in, out, paused, closed, rdl, wdl, pend, nextId>>
     \/ closed /\ pend = <<>> /\ Do([op |-> "flush"]) /\ Flush(out, in) /\ UNCHANGED nextId
Sys == /\ ~Settled /\ UNCHANGED <<hist, nextId>>
       /\ \E i \in DOMAIN pend :
          \/ in # <<>> /\ ReadPacket(i, Head(in))
          \/ \E r \in {"closed", "paused", "timeout"} : ReadFails(i, r)
          \/ pend[i].rem # <<>> /\ \E l \in BOOLEAN : WriteAccept(i, Head(pend[i].rem), l)
          \/ pend[i].rem # <<>> /\ \E r \in {"closed", "paused", "timeout"} : WriteFails(i, Head(pend[i].rem), r)
          \/ out # <<>> /\ PollPacket(i, Head(out))
          \/ PollNoop(i) \/ PollFails(i) \/ PostAccept(i) \/ PostDone(i) \/ PostFails(i)
Next == Env \/ Sys
Spec == Init /\ [][Next]_vars
Emit == (Len(hist) = Depth /\ Settled) => PrintT(<<"SCRIPT", ToJson(hist)>>)
=============================================================================
