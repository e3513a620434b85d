------------------------------ MODULE Session ------------------------------
(* engine.io sessions as their users see them: messages in both directions, handlers, transport candidates, pings and *)
(* the end. Properties C01 C02 C03 C05 C07 C08 (and the order of pings and pongs of C06). An implementation-shaped    *)
(* model of the upgrade (Upgrade.tla) is checked to refine the message part of this module.                           *)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES
  S,      \* sessions: number -> record
  K,      \* candidate connections: number -> record
  Q,      \* messages on their way: <<session, direction, sender>> -> sequence of message numbers
  failed, \* messages whose send failed
  okd,    \* messages whose send returned success
  owed,   \* messages of sends that had succeeded when the session was closed
  late    \* messages sent after the close had returned
svars == <<S, K, Q, failed, okd, owed, late>>
rest == <<okd, late>>

SInit == S = <<>> /\ K = <<>> /\ Q = <<>> /\ failed = {} /\ okd = {} /\ owed = {} /\ late = {}

Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Get(f, k, d) == IF k \in DOMAIN f THEN f[k] ELSE d
Range(q) == {q[i] : i \in 1..Len(q)}
Queues(s, dir) == {key \in DOMAIN Q : key[1] = s /\ key[2] = dir}
Upd(s, r) == S' = Put(S, s, r)

-----------------------------------------------------------------------------
(* sessions begin *)
New(s, tr, go) == s \notin DOMAIN S /\ Upd(s, [st |-> "asked", tr |-> tr, go |-> go, cb |-> FALSE, running |-> <<>>, causes |-> {}, via |-> 0,
                                           wsend |-> FALSE, crunning |-> <<>>, cclosed |-> FALSE, pings |-> <<>>, t |-> 0, closed |-> FALSE])
              /\ UNCHANGED <<K, Q, failed, owed, rest>>
Opened(s) == S[s].st = "asked" /\ Upd(s, [S[s] EXCEPT !.st = "open"]) /\ UNCHANGED <<K, Q, failed, owed, rest>>
OpenCb(s) == ~S[s].cb /\ Upd(s, [S[s] EXCEPT !.cb = TRUE]) /\ UNCHANGED <<K, Q, failed, owed, rest>>
Alive(s) == s \in DOMAIN S /\ S[s].st # "ended"

(* messages: in order per sender, each once *)
Send(s, dir, snd, ms) ==
  /\ s \in DOMAIN S
  /\ Q' = Put(Q, <<s, dir, snd>>, Get(Q, <<s, dir, snd>>, <<>>) \o ms)
  /\ late' = (IF IF dir = "s" THEN S[s].closed ELSE S[s].cclosed THEN late \cup Range(ms) ELSE late)
  /\ UNCHANGED <<S, K, failed, okd, owed>>
SendOk(s, ms) == Range(ms) \cap late = {} /\ okd' = okd \cup Range(ms) /\ UNCHANGED <<S, K, Q, failed, owed, late>>
SendFailed(s, ms) == failed' = failed \cup Range(ms) /\ UNCHANGED <<S, K, Q, owed, rest>>
(* m is next: everything the same sender sent before it has arrived, unless its send failed *)
Next_(key, m) == \E i \in 1..Len(Q[key]) : Q[key][i] = m /\ \A j \in 1..i-1 : Q[key][j] \in failed
Take(s, dir, m) ==
  \E key \in Queues(s, dir) :
    /\ \E i \in 1..Len(Q[key]) : Q[key][i] = m
    /\ Next_(key, m)
    /\ Q' = [Q EXCEPT ![key] = LET i == CHOOSE i \in 1..Len(Q[key]) : Q[key][i] = m IN SubSeq(Q[key], i+1, Len(Q[key]))]
    /\ m \notin late
    /\ owed' = owed \ {m}

(* the server runs one handler of a session at a time, and none after the close callback *)
Idle(s) == S[s].running = <<>>
HandlerBegin(s, m) == Take(s, "c", m) /\ Alive(s) /\ Idle(s) /\ Upd(s, [S[s] EXCEPT !.running = <<m>>]) /\ UNCHANGED <<K, failed, rest>>
HandlerEnd(s, m) == S[s].running = <<m>> /\ Upd(s, [S[s] EXCEPT !.running = <<>>]) /\ UNCHANGED <<K, Q, failed, owed, rest>>

(* the client receives over the transport in use: WebSocket only after it has asked for the switch *)
Over(s, over) == IF over = "polling" THEN S[s].tr = "polling" \/ S[s].via # 0
                                     ELSE S[s].tr = "websocket" \/ \E c \in DOMAIN K : K[c].s = s /\ K[c].phase = "requested"
Receive(s, m, over) == Take(s, "s", m) /\ ~S[s].wsend /\ Over(s, over) /\ S[s].crunning = <<>>
                       /\ (IF S[s].go THEN Upd(s, [S[s] EXCEPT !.crunning = <<m>>]) ELSE UNCHANGED S) /\ UNCHANGED <<K, failed, rest>>
ReceiveEnd(s, m) == S[s].crunning = <<m>> /\ Upd(s, [S[s] EXCEPT !.crunning = <<>>]) /\ UNCHANGED <<K, Q, failed, owed, rest>>

-----------------------------------------------------------------------------
(* candidates: ping, pong with the same data, upgrade; the announcement comes once, and only then *)
Candidate(c, s, t) == /\ c \notin DOMAIN K /\ UNCHANGED <<S, Q, failed, owed, rest>>
                      /\ K' = Put(K, c, [s |-> s, phase |-> "open", probe |-> <<>>, ponged |-> FALSE, excuse |-> FALSE, t |-> t])
CandSend(c, type, probe, t) ==
  LET k == [K[c] EXCEPT !.t = t] IN
  K' = Put(K, c, CASE k.phase = "open" /\ type = "ping" -> [k EXCEPT !.phase = "pinged", !.probe = probe]
                   [] k.phase = "pinged" /\ type = "upgrade" -> [k EXCEPT !.phase = "requested"]
                   [] k.phase = "requested" -> k
                   [] OTHER -> [k EXCEPT !.phase = IF k.phase = "over" THEN "over" ELSE "wrong", !.excuse = TRUE])
  /\ UNCHANGED <<S, Q, failed, owed, rest>>
CandPong(c, probe) == /\ K[c].probe = probe /\ ~K[c].ponged   \* a wrong packet may follow before the pong arrives
                      /\ K' = [K EXCEPT ![c].ponged = TRUE] /\ UNCHANGED <<S, Q, failed, owed, rest>>
(* a candidate that did nothing wrong is closed only if it was silent, another one won, or the session ends *)
MayEnd(c, silent) ==
             \/ K[c].excuse \/ silent
             \/ S[K[c].s].tr = "websocket" \/ \E d \in DOMAIN K \ {c} : K[d].s = K[c].s /\ K[d].phase = "requested"
             \/ S[K[c].s].causes # {} \/ ~Alive(K[c].s)
CandEnd(c) == K' = [K EXCEPT ![c].phase = "over"] /\ UNCHANGED <<S, Q, failed, owed, rest>>
Upgraded(s) == /\ Alive(s) /\ S[s].tr = "polling" /\ Idle(s)
               /\ \E c \in DOMAIN K : /\ K[c].s = s /\ K[c].phase = "requested"
                                      /\ K' = [K EXCEPT ![c].phase = "won"]
                                      /\ Upd(s, [S[s] EXCEPT !.tr = "websocket", !.via = c])
               /\ UNCHANGED <<Q, failed, owed, rest>>
(* whatever wrong a candidate does, it ends *)
CandidatesSettled == \A c \in DOMAIN K : K[c].phase # "wrong"
(* requests over the abandoned transport *)
StrayRefused(code) == code >= 400 /\ code < 500

-----------------------------------------------------------------------------
(* pings and pongs *)
Ping(s, p) == Upd(s, [S[s] EXCEPT !.pings = Append(@, p)]) /\ UNCHANGED <<K, Q, failed, owed, rest>>
Pong(s, p) == S[s].pings # <<>> /\ Head(S[s].pings) = p /\ Upd(s, [S[s] EXCEPT !.pings = Tail(@)]) /\ UNCHANGED <<K, Q, failed, owed, rest>>

(* the end *)
(* messages on their way whose send has succeeded *)
Accepted(s, dir) == UNION {Range(Q[key]) : key \in Queues(s, dir)} \cap okd
Cause(s, what) ==
  /\ Upd(s, [S[s] EXCEPT !.causes = @ \cup {what}])
  /\ owed' = owed \cup (IF S[s].tr = "websocket" /\ what = "server" /\ S[s].causes = {} THEN Accepted(s, "s") ELSE {})
                  \cup (IF what = "client" /\ S[s].causes = {} THEN Accepted(s, "c") ELSE {})
  /\ UNCHANGED <<K, Q, failed, rest>>
Closed(s) == Upd(s, [S[s] EXCEPT !.closed = TRUE]) /\ UNCHANGED <<K, Q, failed, owed, rest>>   \* the server's Close has returned
(* the client sees the connection end: what was accepted before a close has been delivered *)
ClientClosed(s) == Upd(s, [S[s] EXCEPT !.cclosed = TRUE]) /\ UNCHANGED <<K, Q, failed, owed, rest>>
WsEnd(s) == /\ ~S[s].wsend /\ S[s].crunning = <<>>
            /\ S[s].causes = {"server"} => owed \cap Accepted(s, "s") = {}
            /\ Upd(s, [S[s] EXCEPT !.wsend = TRUE]) /\ UNCHANGED <<K, Q, failed, owed, rest>>
CloseCb(s, silent) == (S[s].causes = {"client"} => owed \cap Accepted(s, "c") = {}) /\ Alive(s) /\ Idle(s) /\ (S[s].causes # {} \/ silent) /\ Upd(s, [S[s] EXCEPT !.st = "ended"]) /\ UNCHANGED <<K, Q, failed, owed, rest>>

(* nothing is on its way any more *)
AllDelivered(s) == \A key \in DOMAIN Q : key[1] = s => Range(Q[key]) \subseteq failed
=============================================================================
