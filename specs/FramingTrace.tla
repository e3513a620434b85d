---------------------------- MODULE FramingTrace ----------------------------
(* Posts to and polls of real polling connections and sessions, judged by Framing.                                      *)
EXTENDS Framing, TraceBase
VARIABLES
  l,
  q,       \* packets for the client that it has not polled
  in,      \* packets the handlers still have to be given
  poll,    \* the poll under way
  code,    \* what a post under way is to be answered with
  wild     \* nothing more is known of the session
vars == <<l, q, in, poll, code, wild>>
e == Trace[l]
NoPoll == [mode |-> "none", j |-> <<>>]
TInit == l = 1 /\ q = <<>> /\ in = <<>> /\ poll = NoPoll /\ code = "none" /\ wild = FALSE
Refused(c) == c \in 400..599
Class(c) == IF c \in 200..299 THEN "ok" ELSE IF Refused(c) THEN "refused" ELSE "?"
(* a connection on its own: all packets of the payload, or none *)
One_(t) == LET d == Dec(FALSE, t) IN IF Len(d.ps) = 1 THEN d.ps[1] ELSE <<>>
RawPost == LET d == Dec(e.bin, e.body) IN
  /\ CASE d.r = "ok" -> Class(e.code) = "ok" /\ Len(e.got) = Len(d.ps) /\ \A i \in 1..Len(d.ps) : One_(e.got[i]) = d.ps[i]
       [] d.r = "error" -> Refused(e.code) /\ e.got = <<>>
       [] OTHER -> Class(e.code) # "?" /\ (Refused(e.code) => e.got = <<>>)
  /\ UNCHANGED <<q, in, poll, code, wild>>
(* large ones: known by length and checksum *)
Bulk == /\ IF e.cut THEN Refused(e.code) /\ e.got = <<>> ELSE Class(e.code) = "ok" /\ e.got = e.sent
        /\ UNCHANGED <<q, in, poll, code, wild>>
-----------------------------------------------------------------------------
Form(mode) == CASE mode = "bin" -> e.ct = "application/octet-stream"
                [] mode = "b64" -> e.ct = "text/plain" /\ e.cs = "utf-8"
                [] OTHER -> e.ct \in {"text/javascript", "application/javascript"} /\ e.cs \in {"utf-8", ""}
Answer(mode, j) == DecAnswer(mode, j, e.body)
Opened == LET d == Answer(e.mode, e.j) IN
  /\ Class(e.code) = "ok" /\ Form(e.mode) /\ d.r = "ok" /\ Len(d.ps) = 1 /\ d.ps[1].type = 0 /\ ~d.ps[1].bin /\ Whole(d.ps[1].data, 1).ok
  /\ q' = <<>> /\ in' = <<>> /\ poll' = NoPoll /\ code' = "none" /\ wild' = FALSE
Sent == e.ok /\ q' = Append(q, e.p) /\ UNCHANGED <<in, poll, code, wild>>
Poll == poll = NoPoll /\ poll' = [mode |-> e.mode, j |-> e.j] /\ UNCHANGED <<q, in, code, wild>>
Idle == q = <<>> /\ poll.mode # "badj" /\ UNCHANGED <<q, in, poll, code, wild>>
Result == /\ poll # NoPoll /\ poll' = NoPoll /\ UNCHANGED <<in, code, wild>>
          /\ IF poll.mode = "badj" THEN Refused(e.code) /\ UNCHANGED q
             ELSE /\ Class(e.code) = "ok" /\ Form(poll.mode) /\ q # <<>>
                  /\ q' = Tail(q)
                  /\ (Answer(poll.mode, poll.j) = Res("ok", <<Head(q)>>) \/ (poll.mode = "jsonp" /\ ~Head(q).bin /\ ~ValidUtf8(Head(q).data)))
Good(ct) == ct \in {"good", "good2"}
Mine(p) == p.type \in {2, 4}
Pongs(ps) == LET pings == SelectSeq(ps, LAMBDA p : p.type = 2) IN [i \in 1..Len(pings) |-> [pings[i] EXCEPT !.type = 3]]
Post == LET d == Dec(e.bin, e.body) IN
  /\ UNCHANGED poll
  /\ IF ~Good(e.ct) THEN code' = "refused" /\ UNCHANGED <<q, in, wild>>
     ELSE CASE d.r = "error" -> code' = "refused" /\ UNCHANGED <<q, in, wild>>
            [] d.r = "any" \/ (\E i \in 1..Len(d.ps) : d.ps[i].type = 1) -> wild' = TRUE /\ code' = "any" /\ UNCHANGED <<q, in>>
            [] OTHER -> code' = "ok" /\ in' = in \o SelectSeq(d.ps, Mine) /\ q' = q \o Pongs(d.ps) /\ UNCHANGED wild
Posted == (code = "any" \/ Class(e.code) = code) /\ code' = "none" /\ UNCHANGED <<q, in, poll, wild>>
Method == Refused(e.code) /\ UNCHANGED <<q, in, poll, code, wild>>
Rx == in # <<>> /\ e.p = Head(in) /\ in' = Tail(in) /\ UNCHANGED <<q, poll, code, wild>>
Settled == in = <<>> /\ UNCHANGED <<q, in, poll, code, wild>>
End == q = <<>> /\ in = <<>> /\ poll = NoPoll /\ UNCHANGED <<q, in, poll, code, wild>>
-----------------------------------------------------------------------------
Known == CASE e.ev = "send" -> Sent
           [] e.ev = "poll" -> Poll
           [] e.ev = "idle" -> Idle
           [] e.ev = "res" -> Result
           [] e.ev = "post" -> Post
           [] e.ev = "posted" -> Posted
           [] e.ev = "method" -> Method
           [] e.ev = "rx" -> Rx
           [] e.ev = "settled" -> Settled
           [] e.ev = "end" -> End
           [] OTHER -> FALSE
Step == CASE e.ev = "reset" -> q' = <<>> /\ in' = <<>> /\ poll' = NoPoll /\ code' = "none" /\ wild' = FALSE
          [] e.ev = "rawpost" -> RawPost
    [] e.ev = "bulk" -> Bulk
          [] e.ev = "open" -> Opened
          [] wild -> e.ev \notin {"panic", "leak", "hang"} /\ UNCHANGED <<q, in, poll, code, wild>>
          [] OTHER -> Known
TNext == l <= Len(Trace) /\ l' = l + 1 /\ Step
TSpec == TInit /\ [][TNext]_vars
Track == Progress(l)
=============================================================================
