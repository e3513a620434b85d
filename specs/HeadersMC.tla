----------------------------- MODULE HeadersMC -----------------------------
(* Connections that each have a map of their own, filled from the request on accept, merged and exchanged on upgrade while *)
(* the socket is locked, implement Headers: whatever is read agrees with it.                                             *)
EXTENDS Headers
CONSTANTS Sessions, Names, Values, MaxOps, Defect
Requests == {<<>>} \cup {<<[n |-> n, v |-> v]>> : n \in Names, v \in Values} \cup {<<[n |-> n, v |-> v], [n |-> m, v |-> w]>> : n \in Names, v \in Values, m \in Names, w \in Values}
VARIABLES maps,     \* every map there is, by its number
          conn,     \* the map of the session's connection
          cand,     \* the candidate's map
          offer,    \* the candidate's request
          lock, ops
vars == <<H, maps, conn, cand, offer, lock, ops>>
Zero == [s \in Sessions |-> 0]
Init == HInit /\ maps = <<>> /\ conn = Zero /\ cand = Zero /\ offer = [s \in Sessions |-> <<>>] /\ lock = [s \in Sessions |-> FALSE] /\ ops = 0
Tick == ops < MaxOps /\ ops' = ops + 1
Accept(s, q) == /\ conn[s] = 0 /\ Tick /\ HOpen(s, q) /\ UNCHANGED <<cand, offer, lock>>
                /\ IF Defect = "share" /\ maps # <<>> THEN maps' = [maps EXCEPT ![1] = Of(q)] /\ conn' = [conn EXCEPT ![s] = 1]
                   ELSE maps' = Append(maps, Of(q)) /\ conn' = [conn EXCEPT ![s] = Len(maps) + 1]
Offer(s, q) == conn[s] # 0 /\ cand[s] = 0 /\ Tick /\ maps' = Append(maps, Of(q)) /\ cand' = [cand EXCEPT ![s] = Len(maps) + 1] /\ offer' = [offer EXCEPT ![s] = q] /\ UNCHANGED <<H, conn, lock>>
Fail(s) == cand[s] # 0 /\ ~lock[s] /\ cand' = [cand EXCEPT ![s] = 0] /\ UNCHANGED <<H, maps, conn, offer, lock, ops>>
Merge(s) == /\ cand[s] # 0 /\ ~lock[s] /\ lock' = [lock EXCEPT ![s] = TRUE] /\ UNCHANGED <<H, conn, cand, offer, ops>>
            /\ maps' = [maps EXCEPT ![cand[s]] = CASE Defect = "drop" -> @ [] Defect = "old" -> Over(maps[conn[s]], @) [] OTHER -> Over(@, maps[conn[s]])]
Swap(s) == /\ lock[s] /\ lock' = [lock EXCEPT ![s] = FALSE] /\ conn' = [conn EXCEPT ![s] = cand[s]] /\ cand' = [cand EXCEPT ![s] = 0]
           /\ HUpgrade(s, offer[s]) /\ UNCHANGED <<maps, offer, ops>>
Set(s, n, v) == /\ conn[s] # 0 /\ (~lock[s] \/ Defect = "race") /\ Tick /\ HSet(s, n, v)
                /\ maps' = [maps EXCEPT ![conn[s]] = Put(@, n, v)] /\ UNCHANGED <<conn, cand, offer, lock>>
Next == \E s \in Sessions : \/ \E q \in Requests : Accept(s, q) \/ Offer(s, q)
                            \/ Fail(s) \/ Merge(s) \/ Swap(s)
                            \/ \E n \in Names, v \in Values : Set(s, n, v)
Spec == Init /\ [][Next]_vars
Agrees == \A s \in DOMAIN H : ~lock[s] => maps[conn[s]] = H[s]
=============================================================================
