--------------------------- MODULE EioClientTrace ---------------------------
EXTENDS EioClient, TraceBase
VARIABLE l
TInit == CliInit /\ l = 1
e == Trace[l]
Step ==
  CASE e.ev = "reset" -> Reset
    [] e.ev = "first" -> First(e.t, e.json, e.sid, e.int, e.tmo, e.at)
    [] e.ev = "refuse" -> Refuse
    [] e.ev = "dialled" -> Dialled(e.ok, e.sid)
    [] e.ev = "ping" -> Ping(e.at)
    [] e.ev = "tx" -> Send(e.t, e.m, e.at)
    [] e.ev = "drop" -> Drop(e.at)
    [] e.ev = "close" -> Close(e.at)
    [] e.ev = "got" -> Got(e.m)
    [] e.ev = "peerend" -> PeerEnd(e.at)
    [] e.ev = "sent" -> Sent(e.m, e.ok)
    [] e.ev = "recv" -> Recv(e.m)
    [] e.ev = "closecb" -> CloseCb(e.at)
    [] e.ev = "settled" -> Settled(e.at)
    [] OTHER -> FALSE
TNext == l <= Len(Trace) /\ l' = l + 1 /\ Step
TSpec == TInit /\ [][TNext]_<<clivars, l>>
Track == Progress(l)
=============================================================================
