------------------------------ MODULE SocketIO ------------------------------
(* The Socket.IO layer as its users and its peers see it: namespaces, events, handlers, acknowledgements, binary       *)
(* attachments and the end of a session, on the server and in the client, with either parser.                          *)
(* Properties C09 C10 C11 C12, and the Socket.IO part of C05 C14 C19.                                                   *)
(* Packets are [t, nsp, id, name, args]: id "" if there is none, args canonical values [k, v], k one of                *)
(* s string, # integer, f other number, b bool, n null, x bytes, ls list of strings, l other list, m map, S a socket.  *)
EXTENDS SioTable, FiniteSets, TLC
VARIABLES
  role,  \* "server" or "client": which end is the implementation
  par,   \* "default" or "msgpack"
  C,     \* sessions: number -> record
  E      \* sends that have not returned: lane -> [s, ok]
siovars == <<role, par, C, E>>

Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Get(f, k, d) == IF k \in DOMAIN f THEN f[k] ELSE d
Upd(s, r) == C' = Put(C, s, r) /\ UNCHANGED <<role, par>>

-----------------------------------------------------------------------------
(* arguments as a handler gets them *)
Zero(t) == CASE t = "str" -> [k |-> "s", v |-> "\"\""] [] t = "int" -> [k |-> "#", v |-> "0"]
             [] t = "bool" -> [k |-> "b", v |-> "false"] [] t = "bin" -> [k |-> "x", v |-> ""]
             [] t = "any" -> [k |-> "n", v |-> ""] [] t = "strs" -> [k |-> "ls", v |-> "[]"] [] OTHER -> [k |-> "m", v |-> "{}"]
Fits(t, a) == \/ t = "any" \/ (t = "str" /\ a.k = "s") \/ (t = "int" /\ a.k = "#") \/ (t = "bool" /\ a.k = "b")
              \/ (t = "bin" /\ a.k = "x") \/ (t = "strs" /\ a.k = "ls") \/ (t = "map" /\ a.k = "m")
IsBin(a) == a.k = "x"
NotBin(a) == a.k # "x"
SockVal(s, nsp) == [k |-> "S", v |-> ToString(s) \o ":" \o nsp]
(* JSON with attachments: attachments go to binary parameters, everything else to the other parameters, both in order *)
RECURSIVE ConvDefault(_, _, _, _, _)
ConvDefault(sig, js, bs, sock, acc) ==
  IF sig = <<>> THEN <<TRUE, acc>> ELSE
  LET t == Head(sig) IN
  CASE t = "S" -> ConvDefault(Tail(sig), js, bs, sock, Append(acc, sock))
    [] t = "bin" -> IF bs = <<>> THEN ConvDefault(Tail(sig), js, bs, sock, Append(acc, Zero(t)))
                                 ELSE ConvDefault(Tail(sig), js, Tail(bs), sock, Append(acc, Head(bs)))
    [] OTHER -> IF js = <<>> THEN ConvDefault(Tail(sig), js, bs, sock, Append(acc, Zero(t)))
                ELSE IF Head(js).k = "n" THEN ConvDefault(Tail(sig), Tail(js), bs, sock, Append(acc, Zero(t)))
                ELSE IF Fits(t, Head(js)) THEN ConvDefault(Tail(sig), Tail(js), bs, sock, Append(acc, Head(js)))
                ELSE <<FALSE, <<>>>>
(* msgpack: one list, nothing may be missing *)
RECURSIVE ConvMsgpack(_, _, _, _)
ConvMsgpack(sig, as, sock, acc) ==
  IF sig = <<>> THEN <<TRUE, acc>> ELSE
  IF Head(sig) = "S" THEN ConvMsgpack(Tail(sig), as, sock, Append(acc, sock))
  ELSE IF as = <<>> \/ ~Fits(Head(sig), Head(as)) THEN <<FALSE, <<>>>>
  ELSE ConvMsgpack(Tail(sig), Tail(as), sock, Append(acc, Head(as)))
Conv(sig, args, sock) == IF par = "default" THEN ConvDefault(sig, SelectSeq(args, NotBin), SelectSeq(args, IsBin), sock, <<>>)
                                            ELSE ConvMsgpack(sig, args, sock, <<>>)

-----------------------------------------------------------------------------
(* what the implementation owes for one packet it receives *)
NoPkt == [t |-> "", nsp |-> "", id |-> "", name |-> "", args |-> <<>>, k |-> 0, ak |-> ""]
Call(c, cb, nsp, name, k, args) == IF cb \in {"connect", "disconnect", "error"} /\ ~Watched(nsp) THEN c ELSE [c EXCEPT !.calls = Append(@, [cb |-> cb, nsp |-> nsp, name |-> name, k |-> k, args |-> args, att |-> c.att])]
Out(c, lane, p) == [c EXCEPT !.lanes = Put(@, lane, Append(Get(@, lane, <<>>), p))]
Reply(c, t, nsp, id, args) == Out(c, "proc", [NoPkt EXCEPT !.t = t, !.nsp = nsp, !.id = id, !.args = args])

Attach(c, nsp) == IF nsp \in c.att THEN c ELSE Call([c EXCEPT !.att = @ \cup {nsp}, !.were = @ \cup {c.att}], "connect", nsp, "", 0, <<>>)
Detach(c, nsp) == IF nsp \notin c.att THEN c
                  ELSE Call([c EXCEPT !.att = @ \ {nsp}, !.were = @ \cup {c.att}, !.outst = {o \in @ : o.nsp # nsp}], "disconnect", nsp, "", 0, <<>>)
DoEvent(s, c, p) ==
  IF p.nsp \notin c.att THEN c
  ELSE IF ~Has(p.nsp, p.name) THEN (IF p.id = "" THEN c ELSE Reply(c, "ACK", p.nsp, p.id, <<>>))
  ELSE LET v == Conv(Sig(p.nsp, p.name), p.args, SockVal(s, p.nsp)) IN
       IF ~v[1] THEN Call(c, "error", p.nsp, "", 0, <<>>)
       ELSE LET d == Call(c, "event", p.nsp, p.name, 0, v[2]) IN
            IF p.id = "" THEN d ELSE Reply(d, "ACK", p.nsp, p.id, Ret(p.nsp, p.name, v[2]))
DoAck(s, c, p) ==
  IF ~\E o \in c.outst : o.nsp = p.nsp /\ o.id = p.id THEN c
  ELSE LET o == CHOOSE o \in c.outst : o.nsp = p.nsp /\ o.id = p.id
           d == [c EXCEPT !.outst = @ \ {o}]
           v == Conv(AckSig(o.ak), p.args, SockVal(s, p.nsp)) IN
       IF v[1] THEN Call(d, "ack", p.nsp, "", o.k, v[2]) ELSE Call(d, "error", p.nsp, "", 0, <<>>)
Process(s, c, p) ==
  IF p.nsp \notin Nsps THEN (IF role = "server" /\ p.t \in {"EVENT", "ACK"} THEN Reply(c, "ERROR", p.nsp, "", <<>>) ELSE c)
  ELSE CASE p.t = "CONNECT" -> IF role = "server" THEN Attach(Reply(c, "CONNECT", p.nsp, "", <<>>), p.nsp) ELSE Attach(c, p.nsp)
         [] p.t = "DISCONNECT" -> Detach(c, p.nsp)
         [] p.t = "EVENT" -> DoEvent(s, c, p)
         [] p.t = "ACK" -> DoAck(s, c, p)
         [] p.t = "ERROR" -> Call(c, "error", p.nsp, "", 0, <<>>)
         [] OTHER -> c

-----------------------------------------------------------------------------
SioInit == role = "server" /\ par = "default" /\ C = <<>> /\ E = <<>>
Fresh == [att |-> {}, outst |-> {}, calls |-> <<>>, running |-> 0, runatt |-> {}, lanes |-> <<>>, asm |-> <<>>, inp |-> <<>>, ended |-> FALSE,
          cutoff |-> FALSE, byes |-> {},
          were |-> {}, ending |-> FALSE]  \* since everything last settled: the sets of connected namespaces there were; whether it ended
Open(s) == /\ s \notin DOMAIN C /\ UNCHANGED E
           /\ Upd(s, IF role = "server" THEN Attach(Reply(Fresh, "CONNECT", "/", "", <<>>), "/") ELSE Fresh)

(* the peer sends the frames of a packet: a header, then its attachments; nothing happens before the last of them *)
RECURSIVE Fill(_, _)
Fill(args, bs) == IF args = <<>> THEN <<>> ELSE IF Head(args).k = "ph" THEN <<[k |-> "x", v |-> Head(bs)]>> \o Fill(Tail(args), Tail(bs))
                  ELSE <<Head(args)>> \o Fill(Tail(args), bs)
Tx(s, p, n) == /\ s \in DOMAIN C /\ C[s].inp = <<>> /\ UNCHANGED E
               /\ IF C[s].ended THEN UNCHANGED <<role, par, C>>
                  ELSE IF n = 0 THEN Upd(s, Process(s, C[s], p))
                  ELSE Upd(s, [C[s] EXCEPT !.inp = <<[p |-> p, n |-> n, bs |-> <<>>]>>])
TxBin(s, data) == /\ C[s].inp # <<>> /\ UNCHANGED E
                  /\ LET i == C[s].inp[1]
                         bs == Append(i.bs, data) IN
                     IF Len(bs) < i.n THEN Upd(s, [C[s] EXCEPT !.inp = <<[i EXCEPT !.bs = bs]>>])
                     ELSE Upd(s, Process(s, [C[s] EXCEPT !.inp = <<>>], [i.p EXCEPT !.args = Fill(i.p.args, bs)]))
(* frames that are no packets are reported and change nothing *)
Bad(s, cls) == /\ UNCHANGED E
               /\ IF C[s].ended THEN UNCHANGED <<role, par, C>>
                  ELSE IF cls = "decode" THEN Upd(s, Call(C[s], "globalerror", "", "", 0, <<>>))
                  ELSE IF "/" \in C[s].att THEN Upd(s, Call(C[s], "error", "/", "", 0, <<>>)) ELSE UNCHANGED <<role, par, C>>

(* the implementation sends: headers as expected, each followed by its attachments at once *)
Bins(args) == SelectSeq(args, IsBin)
RECURSIVE Holes(_, _)
Holes(args, i) == IF args = <<>> THEN <<>> ELSE IF IsBin(Head(args)) THEN <<[k |-> "ph", v |-> ToString(i)]>> \o Holes(Tail(args), i + 1)
                  ELSE <<Head(args)>> \o Holes(Tail(args), i)
Wire(p) == IF par = "msgpack" \/ Bins(p.args) = <<>> THEN [t |-> p.t, n |-> 0, args |-> p.args]
           ELSE [t |-> "BINARY_" \o p.t, n |-> Len(Bins(p.args)), args |-> Holes(p.args, 0)]
Rx(s, e) ==
  /\ s \in DOMAIN C /\ C[s].asm = <<>> /\ UNCHANGED E
  /\ e.frame = (IF par = "msgpack" /\ e.t \in {"EVENT", "ACK"} THEN "bin" ELSE "text")
  /\ \E lane \in DOMAIN C[s].lanes :
       /\ C[s].lanes[lane] # <<>>
       /\ LET p == Head(C[s].lanes[lane])
              c == [C[s] EXCEPT !.lanes[lane] = Tail(@), !.asm = IF par = "default" THEN Bins(p.args) ELSE <<>>] IN
          /\ e.t = Wire(p).t /\ e.nsp = p.nsp /\ e.name = p.name
          /\ e.t = "ERROR" \/ (e.n = Wire(p).n /\ e.args = Wire(p).args)
          /\ IF p.k = 0 THEN e.id = p.id /\ Upd(s, c)
             ELSE /\ e.id # "" /\ \A o \in c.outst : o.nsp = p.nsp => o.id # e.id
                  /\ Upd(s, IF p.nsp \in c.att THEN [c EXCEPT !.outst = @ \cup {[nsp |-> p.nsp, id |-> e.id, k |-> p.k, ak |-> p.ak]}] ELSE c)
RxBin(s, data) == C[s].asm # <<>> /\ Head(C[s].asm).v = data /\ UNCHANGED E /\ Upd(s, [C[s] EXCEPT !.asm = Tail(@)])

(* callbacks: those that are due, in order, one at a time; at the end one disconnect for each connected namespace *)
Due(s, e) == C[s].calls # <<>> /\ LET d == Head(C[s].calls) IN d.cb = e.cb /\ d.nsp = e.nsp /\ d.name = e.name /\ d.k = e.k /\ d.args = e.args
Begin(s, e) ==
  /\ C[s].running = 0 /\ e.s \in {0, s} /\ UNCHANGED E
  /\ \/ Due(s, e) /\ Upd(s, [C[s] EXCEPT !.calls = Tail(@), !.running = e.c, !.runatt = Head(C[s].calls).att])
     \/ /\ C[s].ended /\ (C[s].calls = <<>> \/ C[s].cutoff) /\ e.cb = "disconnect" /\ e.nsp \in C[s].byes
        /\ Upd(s, [C[s] EXCEPT !.byes = @ \ {e.nsp}, !.running = e.c, !.runatt = {}, !.calls = <<>>])
Return(c) == \E s \in DOMAIN C : C[s].running = c /\ Upd(s, [C[s] EXCEPT !.running = 0]) /\ UNCHANGED E

(* sends of the application *)
Emit(e) ==
  LET c == C[e.s]
      (* in: the session whose callback this is sent from. Others may be ahead of what is being processed. *)
      atts == IF e.in = e.s THEN {c.runatt} ELSE c.were \cup {c.att}
      ok(f) == e.t = "ERROR" \/ e.nsp \in f
      may == (\E f \in atts : ok(f)) /\ (~c.ended \/ c.ending \/ e.in = e.s) IN  \* callbacks of what came before the end may still be running
  /\ e.s \in DOMAIN C /\ e.lane \notin DOMAIN E
  /\ E' = Put(E, e.lane, [s |-> e.s, may |-> may, must |-> (\A f \in atts : ok(f)) /\ ~c.ended])
  /\ IF may THEN Upd(e.s, Out(c, e.lane, [NoPkt EXCEPT !.t = e.t, !.nsp = e.nsp, !.name = e.name, !.args = e.args, !.k = e.k, !.ak = e.ak]))
     ELSE UNCHANGED <<role, par, C>>
Emitted(e) == /\ e.lane \in DOMAIN E
              /\ IF e.ok THEN E[e.lane].may ELSE (~E[e.lane].must \/ C[E[e.lane].s].ended)
              /\ E' = [x \in DOMAIN E \ {e.lane} |-> E[x]]
              /\ LET s == E[e.lane].s
                     q == Get(C[s].lanes, e.lane, <<>>) IN
                 IF ~e.ok /\ E[e.lane].may /\ q # <<>>     \* what was refused is not sent
                 THEN Upd(s, [C[s] EXCEPT !.lanes = Put(@, e.lane, SubSeq(q, 1, Len(q) - 1))])
                 ELSE UNCHANGED <<role, par, C>>

(* the end; cut: what the peer sent before may be lost with it *)
End(s, cut) == /\ s \in DOMAIN C /\ UNCHANGED E
               /\ IF C[s].ended THEN UNCHANGED <<role, par, C>>
                  ELSE Upd(s, [C[s] EXCEPT !.ended = TRUE, !.ending = TRUE, !.cutoff = cut, !.byes = {n \in C[s].att : Watched(n)}, !.outst = {}, !.inp = <<>>])
PeerEnd(s) == C[s].ended /\ UNCHANGED siovars

(* everything has settled: nothing is owed, except where a callback is held *)
Settled(blocked) ==
  /\ \A s \in DOMAIN C : IF C[s].running # 0 THEN s \in blocked
       ELSE /\ (C[s].calls = <<>> \/ C[s].cutoff) /\ C[s].byes \cap (IF C[s].ended THEN Nsps ELSE {}) = {}
            /\ C[s].ended \/ (C[s].asm = <<>> /\ \A l \in DOMAIN C[s].lanes : C[s].lanes[l] = <<>>)
  /\ E = <<>> /\ C' = [s \in DOMAIN C |-> [C[s] EXCEPT !.were = {}, !.ending = FALSE]] /\ UNCHANGED <<role, par, E>>
=============================================================================
