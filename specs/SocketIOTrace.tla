--------------------------- MODULE SocketIOTrace ---------------------------
(* Is what a real Socket.IO server or client did (a recorded trace) a behaviour of SocketIO? *)
EXTENDS SocketIO, TraceBase
VARIABLE l
tvars == <<siovars, l>>
TInit == SioInit /\ l = 1
e == Trace[l]
Set(q) == {q[i] : i \in 1..Len(q)}
Pkt == [t |-> e.t, nsp |-> e.nsp, id |-> e.id, name |-> e.name, args |-> e.args]
Step ==
  CASE e.ev = "reset" -> role' = e.role /\ par' = e.parser /\ C' = <<>> /\ E' = <<>>
    [] e.ev = "open" -> Open(e.s)
    [] e.ev = "tx" -> Tx(e.s, Pkt, e.n)
    [] e.ev = "txb" -> TxBin(e.s, e.data)
    [] e.ev = "bad" -> Bad(e.s, e.cls)
    [] e.ev = "rx" -> Rx(e.s, e)
    [] e.ev = "rxb" -> RxBin(e.s, e.data)
    [] e.ev = "call" -> \E s \in DOMAIN C : Begin(s, e)
    [] e.ev = "ret" -> Return(e.c)
    [] e.ev = "emit" -> Emit(e)
    [] e.ev = "emitted" -> Emitted(e)
    [] e.ev = "end" -> End(e.s, e.cut)
    [] e.ev = "peerend" -> PeerEnd(e.s)
    [] e.ev = "settled" -> Settled(Set(e.blocked))
    [] OTHER -> FALSE
TNext == l <= Len(Trace) /\ l' = l + 1 /\ Step
TSpec == TInit /\ [][TNext]_tvars
Track == Progress(l)
=============================================================================
