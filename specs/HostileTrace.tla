---------------------------- MODULE HostileTrace ----------------------------
(* Recorded sieges of the real server. *)
EXTENDS Hostile, TraceBase
VARIABLE l
vars == <<l, due, mine, said>>
e == Trace[l]
Victim(s) == s \in {101, 102}
Limit == 400
TInit == l = 1 /\ HInit
Step ==
  CASE e.ev = "reset" -> due' = {} /\ mine' = {} /\ said' = {}
    [] e.ev = "vsend" -> VSend(e.v, e.tok, e.nsp, e.half)
    [] e.ev = "vwhole" -> VWhole(e.v)
    [] e.ev = "vemit" -> VEmit(e.v, e.tok, e.nsp)
    [] e.ev = "ran" -> Ran(e.s, Victim(e.s), e.nsp, e.tok)
    [] e.ev = "vgot" -> Got(e.v, Victim(e.v), e.what, e.nsp, e.tok)
    [] e.ev = "rest" -> e.ok /\ Rest(e.v)
    [] e.ev = "asend" -> ASend(e.a, e.tok)
    [] e.ev = "attack" -> Attack(e.mb, Limit)
    [] e.ev = "newcomer" -> e.ok /\ UNCHANGED hvars
    [] e.ev = "probe" -> e.r \in {"works", "closed"} /\ UNCHANGED hvars
    [] OTHER -> FALSE       \* panics, leaks, hangs, garbage, failed sends to victims
TNext == l <= Len(Trace) /\ l' = l + 1 /\ Step
TSpec == TInit /\ [][TNext]_vars
Track == Progress(l)
=============================================================================
