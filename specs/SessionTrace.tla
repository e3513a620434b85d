---------------------------- MODULE SessionTrace ----------------------------
(* Is what real engine.io sessions did (a recorded trace) a behaviour of Session? *)
EXTENDS Session, TraceBase
VARIABLES l,
  T,      \* silence after which a session may end
  heard   \* when the client last sent something, by session
tvars == <<svars, l, T, heard>>
TInit == SInit /\ l = 1 /\ T = 0 /\ heard = <<>>
e == Trace[l]
Hear == heard' = Put(heard, e.s, e.t)
Deaf == UNCHANGED heard
LongSilent(s) == e.t - heard[s] >= T
Same == UNCHANGED svars
Other ==
  CASE e.ev = "new" -> New(e.s, e.tr, e.go) /\ Hear
    [] e.ev = "open" -> e.ok /\ Opened(e.s) /\ Hear
    [] e.ev = "opencb" -> OpenCb(e.s) /\ Hear
    [] e.ev = "send" -> Send(e.s, e.dir, e.snd, e.ms) /\ IF e.dir = "c" THEN Hear ELSE Deaf
    [] e.ev = "sent" -> Deaf /\ IF e.ok THEN SendOk(e.s, e.ms) ELSE (S[e.s].causes # {} \/ ~Alive(e.s)) /\ SendFailed(e.s, e.ms)
    [] e.ev = "hb" -> HandlerBegin(e.s, e.m) /\ Deaf
    [] e.ev = "he" -> HandlerEnd(e.s, e.m) /\ Deaf
    [] e.ev = "recv" -> Receive(e.s, e.m, e.over) /\ Deaf
    [] e.ev = "recvend" -> ReceiveEnd(e.s, e.m) /\ Deaf
    [] e.ev = "cclosed" -> e.ok /\ ClientClosed(e.s) /\ Deaf
    [] e.ev = "cgone" -> S[e.s].wsend /\ e.sendfails /\ e.again /\ Same /\ Deaf
    [] e.ev = "noop" -> e.over = "polling" /\ Same /\ Deaf
    [] e.ev = "cand" -> e.code = 101 /\ ~e.bad /\ Candidate(e.c, e.s, e.t0) /\ Deaf
    [] e.ev = "candrefused" -> e.bad /\ e.code >= 400 /\ Same /\ Deaf
    [] e.ev = "candsend" -> CandSend(e.c, e.type, <<e.bin, e.data>>, e.t) /\ Deaf
    [] e.ev = "candpong" -> CandPong(e.c, <<e.bin, e.data>>) /\ Deaf
    [] e.ev = "candend" -> MayEnd(e.c, e.t - K[e.c].t >= T \/ LongSilent(e.s)) /\ CandEnd(e.c) /\ Hear  \* silence counts anew
    [] e.ev = "upgraded" -> Upgraded(e.s) /\ Hear
    [] e.ev = "stray" -> StrayRefused(e.code) /\ Same /\ Deaf
    [] e.ev = "ping" -> Ping(e.s, <<e.bin, e.data>>) /\ Hear
    [] e.ev = "pong" -> Pong(e.s, <<e.bin, e.data>>) /\ Deaf
    [] e.ev = "pingcb" -> Alive(e.s) /\ Idle(e.s) /\ Same /\ Deaf
    [] e.ev = "pingfail" -> (S[e.s].causes # {} \/ ~Alive(e.s)) /\ Same /\ Deaf
    [] e.ev = "pollerr" -> (S[e.s].causes # {} \/ ~Alive(e.s) \/ S[e.s].tr = "websocket" \/ \E c \in DOMAIN K : K[c].s = e.s /\ K[c].phase = "requested") /\ Same /\ Deaf
    [] e.ev = "cause" -> Cause(e.s, e.what) /\ Deaf
    [] e.ev = "closed" -> e.ok /\ Closed(e.s) /\ Deaf
    [] e.ev = "wsend" -> (S[e.s].causes # {} \/ ~Alive(e.s) \/ LongSilent(e.s)) /\ WsEnd(e.s) /\ Deaf
    [] e.ev = "closecb" -> CloseCb(e.s, LongSilent(e.s)) /\ Deaf
    [] e.ev = "time" -> (\A s \in DOMAIN S : e.t - heard[s] > T + 1 => ~Alive(s)) /\ Same /\ Deaf
    [] e.ev = "arrived" -> ((S[e.s].causes = {} /\ Alive(e.s)) => AllDelivered(e.s) /\ Idle(e.s) /\ S[e.s].cb /\ S[e.s].pings = <<>>) /\ Same /\ Deaf
    [] e.ev = "quiet" -> (\A s \in DOMAIN S : (S[s].causes = {} /\ Alive(s)) => AllDelivered(s) /\ Idle(s) /\ S[s].cb /\ S[s].pings = <<>>)
                         /\ CandidatesSettled
                         /\ (\A c \in DOMAIN K : K[c].phase = "requested" => S[K[c].s].causes # {} \/ ~Alive(K[c].s))
                         /\ Same /\ Deaf
    [] e.ev = "gone" -> ~Alive(e.s) /\ Idle(e.s) /\ e.ended /\ e.released /\ e.cut /\ e.refused /\ e.sendfails /\ e.again /\ Same /\ Deaf
    [] e.ev = "final" -> (\A s \in DOMAIN S : ~Alive(s)) /\ Same /\ Deaf
    [] OTHER -> FALSE
(* events speak of sessions and candidates there are *)
Known == /\ "s" \in DOMAIN e => (e.ev = "new" \/ e.s \in DOMAIN S)
         /\ "c" \in DOMAIN e => (e.ev \in {"cand", "candrefused"} \/ e.c \in DOMAIN K)
Step ==
  CASE e.ev = "reset" -> /\ S' = <<>> /\ K' = <<>> /\ Q' = <<>> /\ failed' = {} /\ okd' = {} /\ owed' = {} /\ late' = {}
                         /\ T' = e.interval + e.timeout /\ heard' = <<>>
    [] OTHER -> Known /\ Other /\ UNCHANGED T
TNext == l <= Len(Trace) /\ l' = l + 1 /\ Step
TSpec == TInit /\ [][TNext]_tvars
Track == Progress(l)
=============================================================================
