------------------------------ MODULE Upgrade ------------------------------
(* The engine.io socket as implemented in engine/socket.go, emitter.go, server.go (upgrade) and polling.go, step by step:  *)
(* application senders, the emitter goroutine, the reader goroutine, the goroutine of an upgrade, the polling connection   *)
(* with its bounded queues, and a client that polls, posts, probes and switches. What client and handlers receive must be  *)
(* a prefix of what was sent at every moment (C01, C02), everything arrives in the end, the switch is announced once and   *)
(* after everything posted before it has been handled (C02, C03), a failed candidate changes nothing (C03), and Close      *)
(* delivers what was accepted (C08). Defect names a mistake an implementation could make; TLC must then find a violation.  *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS NS,        \* messages the application sends
          NC,        \* messages the client sends
          Cap,       \* capacity of each of the polling queues and of the emitter's queue
          Attempts,  \* candidates
          WithClose, \* the application closes the session at some point
          Defect     \* none, or a mistake
VARIABLES
  sent, eq, em, mutex,           \* application and emitter: sent = number of messages submitted; em = [pc, p, conn]
  conn, paused, pclosed, wclosed, inq, outq, wsin, wsout,   \* connections
  barrier,                       \* upgrades hold it, reader and emitter wait for it
  rd, prev, pending, announce,   \* reader
  up, attempt,                   \* upgrade goroutine
  cl, poll, posted, posting,     \* client
  recv, handled, announced,      \* what has been received
  done, closing, closed, accepted, ended  \* Close; accepted = messages submitted before it was called
vars == <<sent, eq, em, mutex, conn, paused, pclosed, wclosed, inq, outq, wsin, wsout, barrier, rd, prev, pending, announce,
          up, attempt, cl, poll, posted, posting, recv, handled, announced, done, closing, closed, accepted, ended>>

app    == <<sent>>
emv    == <<eq, em, mutex>>
conns  == <<conn, paused, pclosed, wclosed, inq, outq, wsin, wsout>>
readv  == <<rd, prev, pending, announce>>
upv    == <<up, attempt>>
clv    == <<cl, poll, posted, posting>>
obs    == <<recv, handled, announced>>
closev == <<done, closing, closed, accepted, ended>>

Init ==
  /\ sent = 0 /\ eq = <<>> /\ em = [pc |-> "idle", p |-> 0, on |-> "poll"] /\ mutex = ""
  /\ conn = "poll" /\ paused = FALSE /\ pclosed = FALSE /\ wclosed = FALSE /\ inq = <<>> /\ outq = <<>> /\ wsin = <<>> /\ wsout = <<>>
  /\ barrier = FALSE /\ rd = [pc |-> "top", p |-> 0, on |-> "poll"] /\ prev = FALSE /\ pending = <<>> /\ announce = FALSE
  /\ up = "none" /\ attempt = 0
  /\ cl = "polling" /\ poll = FALSE /\ posted = 0 /\ posting = FALSE
  /\ recv = <<>> /\ handled = <<>> /\ announced = 0
  /\ done = FALSE /\ closing = "no" /\ closed = FALSE /\ accepted = 0 /\ ended = FALSE

-----------------------------------------------------------------------------
(* the application submits: blocks while the queue is full *)
Submit == /\ sent < NS /\ ~done /\ Len(eq) < Cap /\ sent' = sent + 1 /\ eq' = Append(eq, sent + 1)
          /\ UNCHANGED <<em, mutex, conns, barrier, readv, upv, clv, obs, closev>>

(* emitter.loop and emitter.write *)
EmTake == /\ em.pc = "idle" /\ eq # <<>> /\ em' = [em EXCEPT !.pc = "wait", !.p = Head(eq)] /\ eq' = Tail(eq)
          /\ UNCHANGED <<app, mutex, conns, barrier, readv, upv, clv, obs, closev>>
EmWait == /\ em.pc = "wait" /\ (~barrier \/ Defect = "nowait") /\ em' = [em EXCEPT !.pc = IF Defect = "nomutex" THEN "write" ELSE "lock", !.on = conn]
          /\ UNCHANGED <<app, eq, mutex, conns, barrier, readv, upv, clv, obs, closev>>
EmLock == /\ em.pc = "lock" /\ mutex = "" /\ mutex' = "em" /\ em' = [em EXCEPT !.pc = "write", !.on = conn]
          /\ UNCHANGED <<app, eq, conns, barrier, readv, upv, clv, obs, closev>>
Unlock == mutex' = IF mutex = "em" THEN "" ELSE mutex
EmWrite ==
  /\ em.pc = "write"
  /\ \/ /\ em.on = "poll" /\ ~pclosed /\ Len(outq) < Cap /\ outq' = Append(outq, em.p) /\ em' = [em EXCEPT !.pc = "idle"] /\ Unlock
        /\ UNCHANGED <<conn, paused, pclosed, wclosed, inq, wsin, wsout>>
     \/ /\ em.on = "poll" /\ ~pclosed /\ paused  \* ErrPollingConnPaused: again once the upgrade is decided
        /\ em' = [em EXCEPT !.pc = IF Defect = "droppaused" THEN "idle" ELSE "wait"] /\ Unlock /\ UNCHANGED conns
     \/ /\ em.on = "poll" /\ pclosed /\ em' = [em EXCEPT !.pc = "idle"] /\ Unlock /\ UNCHANGED conns \* lost, the connection is closed
     \/ /\ em.on = "ws" /\ wsout' = (IF wclosed THEN wsout ELSE Append(wsout, em.p)) /\ em' = [em EXCEPT !.pc = "idle"] /\ Unlock
        /\ UNCHANGED <<conn, paused, pclosed, wclosed, inq, outq, wsin>>
  /\ UNCHANGED <<app, eq, barrier, readv, upv, clv, obs, closev>>

(* Socket.Read and the server's loop *)
RdTop ==
  /\ rd.pc = "top"
  /\ LET pend == IF prev /\ Defect # "noflushin" THEN pending \o inq ELSE pending
         tell == announce /\ (pend = <<>> \/ Defect = "early") IN
     /\ inq' = (IF prev THEN <<>> ELSE inq) /\ prev' = FALSE
     /\ announced' = announced + (IF tell THEN 1 ELSE 0) /\ announce' = (announce /\ ~tell)
     /\ IF pend # <<>> THEN rd' = [rd EXCEPT !.pc = "handle", !.p = Head(pend)] /\ pending' = Tail(pend)
                       ELSE rd' = [rd EXCEPT !.pc = "read", !.on = conn] /\ pending' = <<>>
  /\ UNCHANGED <<app, emv, conn, paused, pclosed, wclosed, outq, wsin, wsout, barrier, upv, clv, recv, handled, closev>>
RdRead ==
  /\ rd.pc = "read"
  /\ \/ /\ rd.on = "poll" /\ inq # <<>> /\ rd' = [rd EXCEPT !.pc = "handle", !.p = Head(inq)] /\ inq' = Tail(inq) /\ UNCHANGED <<wsin, ended>>
     \/ /\ rd.on = "poll" /\ paused /\ ~pclosed /\ rd' = [rd EXCEPT !.pc = "wait"] /\ UNCHANGED <<inq, wsin, ended>>
     \/ /\ rd.on = "poll" /\ pclosed /\ UNCHANGED <<inq, wsin>>
        /\ IF conn # "poll" /\ Defect # "noretry" THEN rd' = [rd EXCEPT !.pc = "top"] /\ UNCHANGED ended
                                                  ELSE rd' = [rd EXCEPT !.pc = "end"] /\ ended' = TRUE
     \/ /\ rd.on = "ws" /\ wsin # <<>> /\ ~wclosed /\ rd' = [rd EXCEPT !.pc = "handle", !.p = Head(wsin)] /\ wsin' = Tail(wsin) /\ UNCHANGED <<inq, ended>>
     \/ /\ rd.on = "ws" /\ wclosed /\ rd' = [rd EXCEPT !.pc = "end"] /\ ended' = TRUE /\ UNCHANGED <<inq, wsin>>
  /\ UNCHANGED <<app, emv, conn, paused, pclosed, wclosed, outq, wsout, barrier, prev, pending, announce, upv, clv, obs, done, closing, closed, accepted>>
RdWait == /\ rd.pc = "wait" /\ ~barrier /\ rd' = [rd EXCEPT !.pc = "top"]
          /\ UNCHANGED <<app, emv, conns, barrier, prev, pending, announce, upv, clv, obs, closev>>
RdHandle == /\ rd.pc = "handle" /\ handled' = Append(handled, rd.p) /\ rd' = [rd EXCEPT !.pc = "top"]
            /\ UNCHANGED <<app, emv, conns, barrier, prev, pending, announce, upv, clv, recv, announced, closev>>

(* the client polls and posts *)
Polls == /\ cl \in {"polling", "probing"} /\ ~poll /\ poll' = TRUE
         /\ UNCHANGED <<app, emv, conns, barrier, readv, upv, cl, posted, posting, obs, closev>>
PollAnswer ==
  /\ poll /\ poll' = FALSE
  /\ \/ ~pclosed /\ outq # <<>> /\ recv' = Append(recv, Head(outq)) /\ outq' = Tail(outq)
     \/ (paused \/ pclosed) /\ UNCHANGED <<recv, outq>>
  /\ UNCHANGED <<app, emv, conn, paused, pclosed, wclosed, inq, wsin, wsout, barrier, readv, upv, cl, posted, posting, handled, announced, closev>>
Post == /\ cl \in {"polling", "probing"} /\ posted < NC /\ Len(inq) < Cap /\ ~pclosed /\ posted' = posted + 1 /\ inq' = Append(inq, posted + 1)
        /\ UNCHANGED <<app, emv, conn, paused, pclosed, wclosed, outq, wsin, wsout, barrier, readv, upv, cl, poll, posting, obs, closev>>
(* and over WebSocket *)
WsSend == /\ cl = "ws" /\ posted < NC /\ ~wclosed /\ posted' = posted + 1 /\ wsin' = Append(wsin, posted + 1)
          /\ UNCHANGED <<app, emv, conn, paused, pclosed, wclosed, inq, outq, wsout, barrier, readv, upv, cl, poll, posting, obs, closev>>
WsRecv == /\ cl = "ws" /\ wsout # <<>> /\ recv' = Append(recv, Head(wsout)) /\ wsout' = Tail(wsout)
          /\ UNCHANGED <<app, emv, conn, paused, pclosed, wclosed, inq, outq, wsin, barrier, readv, upv, clv, handled, announced, closev>>

-----------------------------------------------------------------------------
(* a candidate: the client probes, and after the pong stops polling; its last poll is answered before it asks for the switch *)
Probe == /\ cl = "polling" /\ up = "none" /\ attempt < Attempts /\ conn = "poll" /\ ~ended
         /\ attempt' = attempt + 1 /\ up' = "pong" /\ cl' = "probing"
         /\ UNCHANGED <<app, emv, conns, barrier, readv, poll, posted, posting, obs, closev>>
UpPong == /\ up = "pong" /\ up' = "bar" /\ cl' = "ponged"
          /\ UNCHANGED <<app, emv, conns, barrier, readv, attempt, poll, posted, posting, obs, closev>>
UpBarrier == /\ up = "bar" /\ ~barrier /\ barrier' = TRUE /\ up' = "pause"
             /\ UNCHANGED <<app, emv, conns, readv, attempt, clv, obs, closev>>
UpPause == /\ up = "pause" /\ paused' = TRUE /\ up' = "read"
           /\ UNCHANGED <<app, emv, conn, pclosed, wclosed, inq, outq, wsin, wsout, barrier, readv, attempt, clv, obs, closev>>
AskUpgrade == /\ cl = "ponged" /\ ~poll /\ cl' = "ws" /\ UNCHANGED <<app, emv, conns, barrier, readv, upv, poll, posted, posting, obs, closev>>
(* or it goes away, or does something wrong *)
GiveUp == /\ cl = "ponged" /\ attempt < Attempts + 1 /\ cl' = "gone" /\ UNCHANGED <<app, emv, conns, barrier, readv, upv, poll, posted, posting, obs, closev>>
UpFail == /\ up = "read" /\ cl = "gone"
          /\ paused' = (Defect = "noresume") /\ barrier' = FALSE /\ up' = "none" /\ cl' = "polling"
          /\ UNCHANGED <<app, emv, conn, pclosed, wclosed, inq, outq, wsin, wsout, readv, attempt, poll, posted, posting, obs, closev>>
UpAsked == /\ up = "read" /\ cl = "ws" /\ up' = "lock"
           /\ UNCHANGED <<app, emv, conns, barrier, readv, attempt, clv, obs, closev>>
(* Socket.replace *)
UpLock == /\ up = "lock" /\ (mutex = "" \/ Defect = "nomutex") /\ mutex' = (IF Defect = "nomutex" THEN mutex ELSE "up")
          /\ IF closed THEN up' = "refuse" /\ UNCHANGED <<conn, pclosed, prev, announce>>
                       ELSE up' = "flush" /\ conn' = "ws" /\ pclosed' = TRUE /\ prev' = TRUE /\ announce' = TRUE
          /\ UNCHANGED <<app, eq, em, paused, wclosed, inq, outq, wsin, wsout, barrier, rd, pending, attempt, clv, obs, closev>>
UpFlush == /\ up = "flush"
           /\ IF outq # <<>> /\ Defect # "noflushout"
                THEN wsout' = Append(wsout, Head(outq)) /\ outq' = Tail(outq) /\ UNCHANGED <<up, mutex, barrier>>
                ELSE up' = "none" /\ mutex' = (IF mutex = "up" THEN "" ELSE mutex) /\ barrier' = FALSE /\ UNCHANGED <<wsout, outq>>
           /\ UNCHANGED <<app, eq, em, conn, paused, pclosed, wclosed, inq, wsin, readv, attempt, clv, obs, closev>>
UpRefuse == /\ up = "refuse" /\ up' = "none" /\ mutex' = "" /\ barrier' = FALSE /\ paused' = FALSE /\ wclosed' = TRUE
            /\ UNCHANGED <<app, eq, em, conn, pclosed, inq, outq, wsin, wsout, readv, attempt, clv, obs, closev>>

-----------------------------------------------------------------------------
(* Socket.Close: no more is accepted; the emitter flushes what was, then the connection is closed *)
Close == /\ WithClose /\ closing = "no" /\ closing' = "flush" /\ done' = TRUE /\ accepted' = sent
         /\ UNCHANGED <<app, emv, conns, barrier, readv, upv, clv, obs, closed, ended>>
CloseFlushed == /\ closing = "flush" /\ ((eq = <<>> /\ em.pc = "idle") \/ Defect = "noflush") /\ closing' = "lock"
                /\ UNCHANGED <<app, emv, conns, barrier, readv, upv, clv, obs, done, closed, accepted, ended>>
CloseLock == /\ closing = "lock" /\ (mutex = "" \/ Defect = "noflush") /\ closing' = "yes" /\ closed' = TRUE
             /\ pclosed' = (pclosed \/ conn = "poll") /\ wclosed' = (wclosed \/ conn = "ws")
             /\ UNCHANGED <<app, emv, conn, paused, inq, outq, wsin, wsout, barrier, readv, upv, clv, obs, done, accepted, ended>>

Next == \/ Submit \/ EmTake \/ EmWait \/ EmLock \/ EmWrite \/ RdTop \/ RdRead \/ RdWait \/ RdHandle
        \/ Polls \/ PollAnswer \/ Post \/ WsSend \/ WsRecv
        \/ Probe \/ UpPong \/ UpBarrier \/ UpPause \/ AskUpgrade \/ GiveUp \/ UpFail \/ UpAsked \/ UpLock \/ UpFlush \/ UpRefuse
        \/ Close \/ CloseFlushed \/ CloseLock
Fair == /\ WF_vars(Submit) /\ WF_vars(EmTake) /\ WF_vars(EmWait) /\ SF_vars(EmLock) /\ WF_vars(EmWrite)
        /\ WF_vars(RdTop) /\ WF_vars(RdRead) /\ WF_vars(RdWait) /\ WF_vars(RdHandle)
        /\ WF_vars(Polls) /\ WF_vars(PollAnswer) /\ WF_vars(Post) /\ WF_vars(WsSend) /\ WF_vars(WsRecv)
        /\ WF_vars(UpPong) /\ WF_vars(UpBarrier) /\ WF_vars(UpPause) /\ WF_vars(AskUpgrade \/ GiveUp) /\ WF_vars(UpFail)
        /\ WF_vars(UpAsked) /\ SF_vars(UpLock) /\ WF_vars(UpFlush) /\ WF_vars(UpRefuse) /\ WF_vars(CloseFlushed) /\ SF_vars(CloseLock)
Spec == Init /\ [][Next]_vars /\ Fair

-----------------------------------------------------------------------------
Upto(n) == [i \in 1..n |-> i]
IsPrefix(s, n) == Len(s) <= n /\ s = Upto(Len(s))
(* C01 C02: at every moment what has been received is a prefix of what was sent *)
ClientPrefix == IsPrefix(recv, sent)
HandlerPrefix == IsPrefix(handled, posted)
(* C03: announced once, after everything posted before, and not without the switch *)
OnceAnnounced == announced <= (IF conn = "ws" THEN 1 ELSE 0)
(* what the client posted before it asked is handled before the announcement, what it sent on the new transport after it *)
AnnouncedInOrder == [][announced' # announced => inq' = <<>> /\ pending' = <<>> /\ rd'.pc = "read"]_vars
(* everything arrives (in a session that is not closed), and the switch that was asked for takes place *)
AllArrives == (~WithClose) => <>(recv = Upto(NS) /\ handled = Upto(NC))
SwitchCompletes == (cl = "ws") ~> (announced = 1 \/ done)
(* C08: over WebSocket, everything accepted before Close was called is delivered *)
CloseDelivers == (closing = "yes" /\ conn = "ws") ~> (Len(recv) >= accepted)
(* C07: a session that was closed ends, and only such a session ends *)
CloseEnds == done ~> ended
EndsOnlyIfClosed == ended => done
=============================================================================
