---------------------------- MODULE HeadersTrace ----------------------------
(* Headers read from and written to sockets of real sessions, judged by Headers. The two ends of a session whose client  *)
(* is one of the engine's own are told apart by their number, and so is the map the application dialled with.            *)
EXTENDS Headers, TraceBase
VARIABLES l, maybe       \* maybe: <<s, n, v>> that may have been set before or after the upgrade
vars == <<l, H, maybe>>
e == Trace[l]
TInit == l = 1 /\ HInit /\ maybe = {}
Conflicts(s, n) == {m[3] : m \in {m \in maybe : m[1] = s /\ m[2] = n}}
(* a name set while the upgrade took place, which the upgrading request carries too, has either value; each read fixes nothing *)
Get == IF Conflicts(e.s, e.n) # {} THEN (\E v \in Conflicts(e.s, e.n) : v = e.v) /\ UNCHANGED <<H, maybe>>
       ELSE HGet(e.s, e.n, e.v) /\ UNCHANGED maybe
Set == HSet(e.s, e.n, e.v) /\ maybe' = {m \in maybe : m[1] # e.s \/ m[2] # e.n}
(* e.sets: what was set, in this order, while the upgrade took place *)
RECURSIVE PutAll(_, _)
PutAll(f, q) == IF q = <<>> THEN f ELSE PutAll(Put(f, Head(q).n, Head(q).v), Tail(q))
Last(q, n) == PutAll(<<>>, q)[n]
Upgrade ==
  LET before == Over(Of(e.q), H[e.s])
      both == {n \in {e.sets[i].n : i \in 1..Len(e.sets)} : n \in DOMAIN Of(e.q)} IN
  /\ e.s \in DOMAIN H
  /\ H' = [H EXCEPT ![e.s] = PutAll(before, e.sets)]
  /\ maybe' = maybe \cup {<<e.s, n, Of(e.q)[n]>> : n \in both} \cup {<<e.s, e.sets[i].n, e.sets[i].v>> : i \in {i \in 1..Len(e.sets) : e.sets[i].n \in both}}
Step == CASE e.ev = "reset" -> H' = <<>> /\ maybe' = {}
          [] e.ev = "open" -> HOpen(e.s, e.q) /\ UNCHANGED maybe
          [] e.ev = "set" -> Set
          [] e.ev = "get" -> Get
          [] e.ev = "upgrade" -> Upgrade
          [] e.ev = "own" -> e.same /\ UNCHANGED <<H, maybe>>
          [] OTHER -> FALSE
TNext == l <= Len(Trace) /\ l' = l + 1 /\ Step
TSpec == TInit /\ [][TNext]_vars
Track == Progress(l)
=============================================================================
