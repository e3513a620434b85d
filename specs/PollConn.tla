------------------------------ MODULE PollConn ------------------------------
(* The polling connection of engine.io (engine/polling.go): two bounded queues between the application side           *)
(* (ReadPacket/WritePacket) and the HTTP side (GET/POST), that can be paused, resumed and closed, with deadlines.     *)
(* Property C18. The choice Go's select makes when several outcomes are ready is left open.                           *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS InCap, OutCap      \* how many packets each direction buffers
Never == 1000000000          \* deadline: none

VARIABLES
  in, out,      \* queued packets (ids)
  paused, closed,
  rdl, wdl,     \* deadlines set for reads and writes
  now,
  pend          \* operations that have started and not returned: id -> record
cvars == <<in, out, paused, closed, rdl, wdl, now, pend>>

CInit == /\ in = <<>> /\ out = <<>>
         /\ paused = FALSE /\ closed = FALSE
         /\ rdl = Never /\ wdl = Never /\ now = 0
         /\ pend = <<>>

Add(i, rec) == pend' = [j \in DOMAIN pend \cup {i} |-> IF j = i THEN rec ELSE pend[j]]
Del(i)      == pend' = [j \in DOMAIN pend \ {i} |-> pend[j]]
Is(i, kind) == i \in DOMAIN pend /\ pend[i].kind = kind
Waiting(kind) == Cardinality({i \in DOMAIN pend : pend[i].kind = kind})

(* a packet can be taken over when there is room or, without any buffer, when someone is waiting for it *)
InRoom  == ~closed /\ (Len(in) < InCap \/ (InCap = 0 /\ in = <<>> /\ Waiting("read") > 0))
OutRoom == ~closed /\ (Len(out) < OutCap \/ (OutCap = 0 /\ out = <<>> /\ Waiting("poll") > 0))

-----------------------------------------------------------------------------
(* operations start *)
StartRead(i)       == Add(i, [kind |-> "read",  rem |-> <<>>, dl |-> rdl,   cx |-> FALSE]) /\ UNCHANGED <<in, out, paused, closed, rdl, wdl, now>>
StartWrite(i, ids) == Add(i, [kind |-> "write", rem |-> ids,  dl |-> wdl,   cx |-> FALSE]) /\ UNCHANGED <<in, out, paused, closed, rdl, wdl, now>>
StartPoll(i)       == Add(i, [kind |-> "poll",  rem |-> <<>>, dl |-> Never, cx |-> FALSE]) /\ UNCHANGED <<in, out, paused, closed, rdl, wdl, now>>
StartPost(i, ids)  == Add(i, [kind |-> "post",  rem |-> ids,  dl |-> Never, cx |-> FALSE]) /\ UNCHANGED <<in, out, paused, closed, rdl, wdl, now>>
Cancel(i)          == Is(i, "poll") /\ Add(i, [pend[i] EXCEPT !.cx = TRUE]) /\ UNCHANGED <<in, out, paused, closed, rdl, wdl, now>>

(* ... and return *)
ReadPacket(i, m) == /\ Is(i, "read") /\ ~closed /\ in # <<>> /\ Head(in) = m
                    /\ in' = Tail(in) /\ Del(i) /\ UNCHANGED <<out, paused, closed, rdl, wdl, now>>
Fails(i, r) == \/ r = "closed"  /\ closed
               \/ r = "paused"  /\ paused /\ ~closed
               \/ r = "timeout" /\ pend[i].dl <= now /\ ~closed
ReadFails(i, r) == Is(i, "read") /\ Fails(i, r) /\ Del(i) /\ UNCHANGED <<in, out, paused, closed, rdl, wdl, now>>

WriteAccept(i, m, last) ==
  /\ Is(i, "write") /\ OutRoom /\ pend[i].rem # <<>> /\ Head(pend[i].rem) = m
  /\ last = (Len(pend[i].rem) = 1)
  /\ out' = Append(out, m)
  /\ IF last THEN Del(i) ELSE Add(i, [pend[i] EXCEPT !.rem = Tail(@)])
  /\ UNCHANGED <<in, paused, closed, rdl, wdl, now>>
WriteFails(i, m, r) == /\ Is(i, "write") /\ pend[i].rem # <<>> /\ Head(pend[i].rem) = m
                       /\ Fails(i, r) /\ Del(i) /\ UNCHANGED <<in, out, paused, closed, rdl, wdl, now>>

PollPacket(i, m) == /\ Is(i, "poll") /\ ~closed /\ out # <<>> /\ Head(out) = m
                    /\ out' = Tail(out) /\ Del(i) /\ UNCHANGED <<in, paused, closed, rdl, wdl, now>>
PollNoop(i)  == Is(i, "poll") /\ paused /\ ~closed /\ Del(i) /\ UNCHANGED <<in, out, paused, closed, rdl, wdl, now>>
PollFails(i) == Is(i, "poll") /\ (closed \/ pend[i].cx) /\ Del(i) /\ UNCHANGED <<in, out, paused, closed, rdl, wdl, now>>

PostAccept(i) == /\ Is(i, "post") /\ InRoom /\ pend[i].rem # <<>>
                 /\ in' = Append(in, Head(pend[i].rem))
                 /\ Add(i, [pend[i] EXCEPT !.rem = Tail(@)])
                 /\ UNCHANGED <<out, paused, closed, rdl, wdl, now>>
PostDone(i)  == Is(i, "post") /\ pend[i].rem = <<>> /\ Del(i) /\ UNCHANGED <<in, out, paused, closed, rdl, wdl, now>>
PostFails(i) == Is(i, "post") /\ closed /\ Del(i) /\ UNCHANGED <<in, out, paused, closed, rdl, wdl, now>>

(* operations that return at once *)
Pause  == ~paused /\ paused' = TRUE /\ UNCHANGED <<in, out, closed, rdl, wdl, now, pend>>
Resume == paused /\ paused' = FALSE /\ UNCHANGED <<in, out, closed, rdl, wdl, now, pend>>
Close  == closed' = TRUE /\ UNCHANGED <<in, out, paused, rdl, wdl, now, pend>>
SetDeadline(kind, dl, r) ==
  /\ \/ r = "ok" /\ ~paused /\ ~closed /\ IF kind = "read" THEN rdl' = dl /\ UNCHANGED wdl ELSE wdl' = dl /\ UNCHANGED rdl
     \/ r = "paused" /\ paused /\ UNCHANGED <<rdl, wdl>>
     \/ r = "closed" /\ closed /\ UNCHANGED <<rdl, wdl>>
  /\ UNCHANGED <<in, out, paused, closed, now, pend>>
Flush(o, n) == closed /\ o = out /\ n = in /\ out' = <<>> /\ in' = <<>> /\ UNCHANGED <<paused, closed, rdl, wdl, now, pend>>

(* An operation that can return does so before time passes, and before anything else is asked of the connection. *)
Stuck(i) == ~ \/ closed
              \/ pend[i].kind # "post" /\ paused
              \/ pend[i].dl <= now
              \/ pend[i].cx
              \/ pend[i].kind = "read" /\ in # <<>>
              \/ pend[i].kind = "poll" /\ out # <<>>
              \/ pend[i].kind = "write" /\ OutRoom
              \/ pend[i].kind = "post" /\ (pend[i].rem = <<>> \/ InRoom)
Settled == \A i \in DOMAIN pend : Stuck(i)
AdvanceTo(t) == t > now /\ Settled /\ (\A i \in DOMAIN pend : pend[i].dl >= t) /\ now' = t
                /\ UNCHANGED <<in, out, paused, closed, rdl, wdl, pend>>
=============================================================================
