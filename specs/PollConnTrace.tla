--------------------------- MODULE PollConnTrace ---------------------------
(* Is what the real polling connection did (a recorded trace) a behaviour of PollConn? *)
EXTENDS PollConn, TraceBase
TInCap == Trace[1].incap
TOutCap == Trace[1].outcap
VARIABLES l, ret     \* ret: results decided and not yet logged; operations that finish together are logged in any order
tvars == <<cvars, l, ret>>
TInit == CInit /\ l = 1 /\ ret = <<>>
e == Trace[l]
More == l <= Len(Trace)
Is_(name) == More /\ e.ev = name
Step == l' = l + 1
Env == /\ ret = <<>> /\ UNCHANGED ret
Result(ev, i, r, m, last) == ret' = Append(ret, [ev |-> ev, i |-> i, r |-> r, m |-> m, last |-> last, t |-> now])
Consume ==
  \/ Is_("reset") /\ Step /\ in' = <<>> /\ out' = <<>> /\ paused' = FALSE /\ closed' = FALSE
     /\ rdl' = Never /\ wdl' = Never /\ now' = 0 /\ pend' = <<>> /\ ret' = <<>>
  \/ Is_("read") /\ Step /\ StartRead(e.i) /\ Env
  \/ Is_("write") /\ Step /\ StartWrite(e.i, e.ids) /\ Env
  \/ Is_("poll") /\ Step /\ StartPoll(e.i) /\ Env
  \/ Is_("post") /\ Step /\ StartPost(e.i, e.ids) /\ Env
  \/ Is_("cancel") /\ Step /\ Cancel(e.i) /\ Env
  \/ Is_("pause") /\ Step /\ Pause /\ Env
  \/ Is_("resume") /\ Step /\ Resume /\ Env
  \/ Is_("close") /\ Step /\ Close /\ Env
  \/ Is_("deadline") /\ Step /\ SetDeadline(e.kind, e.dl, e.r) /\ Env
  \/ Is_("flush") /\ Step /\ Flush(e.out, e.in) /\ Env
  \/ Is_("settled") /\ Step /\ e.t = now /\ Settled /\ Env /\ UNCHANGED cvars
  \/ More /\ e.ev \in {"readDone", "writeDone", "pollDone", "postDone"} /\ Step /\ UNCHANGED cvars
     /\ \E k \in 1..Len(ret) :
          /\ ret[k] = [ev |-> e.ev, i |-> e.i, r |-> e.r, m |-> e.m, last |-> e.last, t |-> e.t]
          /\ \A j \in 1..k-1 : ret[j].i # e.i
          /\ ret' = SubSeq(ret, 1, k-1) \o SubSeq(ret, k+1, Len(ret))
Decide(i) ==
  \/ in # <<>> /\ ReadPacket(i, Head(in)) /\ Result("readDone", i, "ok", Head(in), TRUE)
  \/ \E r \in {"closed", "paused", "timeout"} : ReadFails(i, r) /\ Result("readDone", i, r, 0, TRUE)
  \/ pend[i].rem # <<>> /\ \E last \in BOOLEAN : WriteAccept(i, Head(pend[i].rem), last) /\ Result("writeDone", i, "ok", Head(pend[i].rem), last)
  \/ pend[i].rem # <<>> /\ \E r \in {"closed", "paused", "timeout"} :
        WriteFails(i, Head(pend[i].rem), r) /\ Result("writeDone", i, r, Head(pend[i].rem), TRUE)
  \/ out # <<>> /\ PollPacket(i, Head(out)) /\ Result("pollDone", i, "ok", Head(out), TRUE)
  \/ PollNoop(i) /\ Result("pollDone", i, "noop", 0, TRUE)
  \/ PollFails(i) /\ Result("pollDone", i, "error", 0, TRUE)
  \/ PostAccept(i) /\ UNCHANGED ret
  \/ PostDone(i) /\ Result("postDone", i, "ok", 0, TRUE)
  \/ PostFails(i) /\ Result("postDone", i, "error", 0, TRUE)
Silent == UNCHANGED l /\ More /\ (\/ \E i \in DOMAIN pend : Decide(i)
                                  \/ "t" \in DOMAIN e /\ ret = <<>> /\ AdvanceTo(e.t) /\ UNCHANGED ret)
TNext == Consume \/ Silent
TSpec == TInit /\ [][TNext]_tvars
Track == Progress(l)
=============================================================================
