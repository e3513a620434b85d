---------------------------- MODULE PollConnMC ----------------------------
(* Exhaustive check of PollConn for small constants, with history variables: what was accepted, what was consumed. *)
EXTENDS PollConn
CONSTANTS MaxOps, MaxTime
VARIABLES accIn, accOut, conIn, conOut, nextId, ops, spurious, handed
vars == <<cvars, accIn, accOut, conIn, conOut, nextId, ops, spurious, handed>>
h == <<accIn, accOut, conIn, conOut, spurious, handed>>
Init == CInit /\ accIn = <<>> /\ accOut = <<>> /\ conIn = <<>> /\ conOut = <<>> /\ nextId = 1 /\ ops = 0 /\ spurious = FALSE /\ handed = FALSE

New(k) == [j \in 1..k |-> nextId + j - 1]
Op == ops < MaxOps /\ ops' = ops + 1 /\ Settled
i0 == ops + 1
Env == /\ Op
       /\ \/ StartRead(i0) /\ UNCHANGED <<h, nextId>>
          \/ \E k \in 1..2 : StartWrite(i0, New(k)) /\ nextId' = nextId + k /\ UNCHANGED h
          \/ StartPoll(i0) /\ UNCHANGED <<h, nextId>>
          \/ \E k \in 1..2 : StartPost(i0, New(k)) /\ nextId' = nextId + k /\ UNCHANGED h
          \/ \E i \in DOMAIN pend : Cancel(i) /\ UNCHANGED <<h, nextId>>
          \/ Pause /\ UNCHANGED <<h, nextId>>
          \/ Resume /\ UNCHANGED <<h, nextId>>
          \/ Close /\ UNCHANGED <<h, nextId>>
          \/ \E kind \in {"read", "write"}, dl \in {0, now + 1, Never}, r \in {"ok", "paused", "closed"} :
                SetDeadline(kind, dl, r) /\ UNCHANGED <<h, nextId>>
          \/ Flush(out, in) /\ handed' = TRUE /\ conIn' = conIn \o in /\ conOut' = conOut \o out
             /\ UNCHANGED <<accIn, accOut, spurious, nextId>>
Tick == now < MaxTime /\ AdvanceTo(now + 1) /\ UNCHANGED <<h, nextId, ops>>
Sys == /\ UNCHANGED <<nextId, ops, handed>>
       /\ \E i \in DOMAIN pend :
          \/ in # <<>> /\ ReadPacket(i, Head(in)) /\ conIn' = Append(conIn, Head(in)) /\ UNCHANGED <<accIn, accOut, conOut, spurious>>
          \/ \E r \in {"closed", "paused", "timeout"} : ReadFails(i, r)
               /\ spurious' = (spurious \/ (~closed /\ ~paused /\ pend[i].dl > now)) /\ UNCHANGED <<accIn, accOut, conIn, conOut>>
          \/ \E m \in 1..nextId, l \in BOOLEAN : WriteAccept(i, m, l) /\ accOut' = Append(accOut, m) /\ UNCHANGED <<accIn, conIn, conOut, spurious>>
          \/ \E m \in 1..nextId, r \in {"closed", "paused", "timeout"} : WriteFails(i, m, r)
               /\ spurious' = (spurious \/ (~closed /\ ~paused /\ pend[i].dl > now)) /\ UNCHANGED <<accIn, accOut, conIn, conOut>>
          \/ out # <<>> /\ PollPacket(i, Head(out)) /\ conOut' = Append(conOut, Head(out)) /\ UNCHANGED <<accIn, accOut, conIn, spurious>>
          \/ PollNoop(i) /\ UNCHANGED <<accIn, accOut, conIn, conOut, spurious>>
          \/ PollFails(i) /\ UNCHANGED <<accIn, accOut, conIn, conOut, spurious>>
          \/ PostAccept(i) /\ accIn' = Append(accIn, Head(pend[i].rem)) /\ UNCHANGED <<accOut, conIn, conOut, spurious>>
          \/ PostDone(i) /\ UNCHANGED <<accIn, accOut, conIn, conOut, spurious>>
          \/ PostFails(i) /\ UNCHANGED <<accIn, accOut, conIn, conOut, spurious>>
Next == Env \/ Tick \/ Sys
Spec == Init /\ [][Next]_vars /\ WF_vars(Sys)

(* nothing is lost, duplicated or reordered between acceptance and consumption, whatever pauses and closes happen *)
Conserved == accIn = conIn \o in /\ accOut = conOut \o out
NoSpurious == ~spurious
Bounded == Len(in) <= InCap /\ Len(out) <= OutCap
(* after a close every pending operation returns *)
Released == closed ~> (DOMAIN pend = {})
(* while paused, only posts can be pending once everything has settled *)
PauseReleases == paused ~> (~paused \/ \A i \in DOMAIN pend : pend[i].kind = "post")
=============================================================================
