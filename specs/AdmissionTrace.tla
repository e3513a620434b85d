--------------------------- MODULE AdmissionTrace ---------------------------
(* Requests to a real server and what became of them, judged by Admission.                                              *)
EXTENDS Admission, TraceBase, FiniteSets
VARIABLES
  l,
  cfg,     \* interval, timeout, checks
  closed,
  sids     \* every session id there has been
vars == <<l, cfg, closed, sids>>
e == Trace[l]
TInit == l = 1 /\ cfg = [interval |-> 0, timeout |-> 0, checks |-> <<>>] /\ closed = FALSE /\ sids = {}
Refusal(a) == a.code \in 400..599 /\ a.body >= 0 /\ a.opened = <<>>
Body(a) == CASE a.mode = "ws" -> Res("ok", a.frames) [] a.mode = "jsonp" -> DecAnswer("jsonp", <<52>>, a.text) [] OTHER -> DecAnswer(a.mode, <<>>, a.text)
(* answered with OPEN, and the callback was called once, with that session *)
Session(a, others) ==
  LET d == Body(a) IN
  /\ a.code \in {101, 200} /\ (a.mode = "ws") = (a.code = 101)
  /\ d.r = "ok" /\ Len(d.ps) >= 1 /\ (a.mode # "ws" => Len(d.ps) = 1)
  /\ Open(d.ps[1], cfg.interval, cfg.timeout, a.sid)
  /\ \A i \in 2..Len(d.ps) : d.ps[i].type # 0
  /\ a.opened = <<a.sid>> /\ a.sid \notin others
Judge(a, how) == CASE how = "admit" -> Session(a, sids) /\ sids' = sids \cup {a.sid}
                   [] how = "refuse" -> Refusal(a) /\ UNCHANGED sids
                   [] OTHER -> a.opened = <<>> /\ UNCHANGED sids
Request == Judge(e.a, Verdict(e.r, e.r.on, cfg.checks, closed)) /\ UNCHANGED <<cfg, closed>>
(* many at once; those that race with Close may go either way, but wholly *)
Dropped(a) == a.opened = <<>> /\ (a.code \in 400..599 \/ (a.mode = "ws" /\ a.code = 101 /\ a.frames = <<>> /\ a.gone))
Burst == LET A == {i \in 1..Len(e.as) : Session(e.as[i], sids)} IN
  /\ \A i \in 1..Len(e.as) :
       LET v == Verdict(e.rs[i], "none", cfg.checks, closed) IN
       CASE v = "admit" -> i \in A \/ (e.race /\ Dropped(e.as[i]))
         [] OTHER -> Refusal(e.as[i])
  /\ \A i, j \in A : i # j => e.as[i].sid # e.as[j].sid
  /\ e.stray = 0
  /\ sids' = sids \cup {e.as[i].sid : i \in A} /\ closed' = (closed \/ e.race) /\ UNCHANGED cfg
(* many open at once, each with an id, a callback and a life of its own *)
Crowd == /\ e.ok = e.n /\ e.ids = e.n /\ e.calls = e.n /\ e.once = e.n /\ e.posted = e.n /\ e.right = e.n
         /\ UNCHANGED <<cfg, closed, sids>>
Step == CASE e.ev = "reset" -> cfg' = [interval |-> e.interval, timeout |-> e.timeout, checks |-> e.checks] /\ closed' = FALSE /\ sids' = {}
          [] e.ev = "req" -> Request
          [] e.ev = "burst" -> Burst
          [] e.ev = "crowd" -> Crowd
          [] e.ev = "close" -> closed' = TRUE /\ UNCHANGED <<cfg, sids>>
          [] e.ev = "end" -> e.opened = 0 /\ UNCHANGED <<cfg, closed, sids>>
          [] OTHER -> FALSE
TNext == l <= Len(Trace) /\ l' = l + 1 /\ Step
TSpec == TInit /\ [][TNext]_vars
Track == Progress(l)
=============================================================================
