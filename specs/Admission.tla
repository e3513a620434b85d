----------------------------- MODULE Admission -----------------------------
(* Which requests create a session. A request r names a method, a protocol version, a transport, a session, an origin and *)
(* whether it is a WebSocket handshake; the server has origin checks, each a set of origins or "any", and may be closed.  *)
EXTENDS Framing
Methods == {"GET", "POST", "PUT", "HEAD", "DELETE", "OPTIONS", "CONNECT"}
Transports == {"polling", "websocket"}
Passes(checks, origin) == \A i \in 1..Len(checks) : checks[i] = <<"any">> \/ \E k \in 1..Len(checks[i]) : checks[i][k] = origin
(* a proper handshake: it is to be answered with a session of its own *)
Handshake(r) == r.eio = "3" /\ r.tr \in Transports /\ r.sid = "none" /\ r.method = "GET" /\ (r.tr = "websocket" => r.ws)
Admitted(r, checks, closed) == Handshake(r) /\ Passes(checks, r.origin) /\ ~closed
(* a request of a session that exists is for that session to judge *)
Own(r, tr) == r.eio = "3" /\ r.sid = "live" /\ tr = "polling" /\ (r.tr = "polling" \/ (r.tr = "websocket" /\ r.ws))
Verdict(r, tr, checks, closed) == IF Admitted(r, checks, closed) THEN "admit" ELSE IF Own(r, tr) THEN "own" ELSE "refuse"

(* what OPEN has to say *)
Field(v, k) == LET I == {i \in 1..Len(v.v) : v.v[i][1] = k} IN IF I = {} THEN [k |-> "z", v |-> <<>>] ELSE v.v[CHOOSE i \in I : \A j \in I : j <= i][2]
KSid == <<115, 105, 100>>
KUp == <<117, 112, 103, 114, 97, 100, 101, 115>>
KInt == <<112, 105, 110, 103, 73, 110, 116, 101, 114, 118, 97, 108>>
KTim == <<112, 105, 110, 103, 84, 105, 109, 101, 111, 117, 116>>
Websocket == [k |-> "s", v |-> <<119, 101, 98, 115, 111, 99, 107, 101, 116>>]
Open(p, interval, timeout, sid) ==
  /\ p.type = 0 /\ ~p.bin
  /\ LET x == Whole(p.data, 1) IN
     /\ x.ok /\ x.v.k = "o" /\ sid # <<>>
     /\ Field(x.v, KSid) = [k |-> "s", v |-> sid]
     /\ Field(x.v, KUp).k = "l" /\ \E i \in 1..Len(Field(x.v, KUp).v) : Field(x.v, KUp).v[i] = Websocket
     /\ Field(x.v, KInt) = [k |-> "#", v |-> Digits10(interval)]
     /\ Field(x.v, KTim) = [k |-> "#", v |-> Digits10(timeout)]
=============================================================================
