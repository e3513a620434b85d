------------------------------ MODULE SioImpl ------------------------------
(* The concurrent part of the Socket.IO layer, shaped like the code: several goroutines emit packets with attachments and   *)
(* callbacks on one session while its reader processes acknowledgements, CONNECT, DISCONNECT and the end.                  *)
(* Properties C10 C11 C12. Defect makes a deliberately broken variant that TLC must refute.                                *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS NG,      \* goroutines that emit
          NE,      \* packets each emits
          NA,      \* attachments of each packet
          NConn,   \* how often the peer connects or disconnects the namespace
          Defect   \* "none", "nolock" (no emission lock), "splitid" (id not allocated atomically), "latereg" (callback registered
                   \* after the packet is sent), "nodelete" (callback kept after use), "notify" (disconnect reported when nothing was attached)
G == 1..NG
VARIABLES pc, n, att,          \* of each emitter: where it is, packets done, attachments of this packet done
          myid, nextid,        \* id allocation
          acks, handle,        \* registered callbacks of the attached namespace (handle: which attachment of it, 0 if none)
          lock,                \* emission lock
          wire, peer,          \* frames sent; requests the peer has seen completely
          inq, rpc, racks,     \* packets from the peer; the reader
          ran,                 \* callbacks run: <<g, packet>> -> times
          cbs, conns, ended    \* connect and disconnect callbacks, in order
vars == <<pc, n, att, myid, nextid, acks, handle, lock, wire, peer, inq, rpc, racks, ran, cbs, conns, ended>>
U(v) == UNCHANGED v
Init ==
  /\ pc = [g \in G |-> "idle"] /\ n = [g \in G |-> 0] /\ att = [g \in G |-> 0] /\ myid = [g \in G |-> 0] /\ nextid = 0
  /\ acks = {} /\ handle = 1 /\ lock = 0 /\ wire = <<>> /\ peer = {} /\ inq = <<>> /\ rpc = "idle" /\ racks = <<>>
  /\ ran = <<>> /\ cbs = <<"connect">> /\ conns = 0 /\ ended = FALSE
At(g, s) == pc' = [pc EXCEPT ![g] = s]

(* emit: look up the namespace, allocate an id, register the callback, send the frames under the lock *)
Start(g) == /\ pc[g] = "idle" /\ n[g] < NE /\ handle # 0 /\ ~ended
            /\ IF Defect = "splitid" THEN At(g, "read") /\ U(<<myid, nextid>>)
               ELSE At(g, "register") /\ nextid' = nextid + 1 /\ myid' = [myid EXCEPT ![g] = nextid + 1]
            /\ U(<<n, att, acks, handle, lock, wire, peer, inq, rpc, racks, ran, cbs, conns, ended>>)
ReadId(g) == /\ pc[g] = "read" /\ myid' = [myid EXCEPT ![g] = nextid + 1] /\ At(g, "write")
             /\ U(<<n, att, nextid, acks, handle, lock, wire, peer, inq, rpc, racks, ran, cbs, conns, ended>>)
WriteId(g) == /\ pc[g] = "write" /\ nextid' = myid[g] /\ At(g, "register")
              /\ U(<<n, att, myid, acks, handle, lock, wire, peer, inq, rpc, racks, ran, cbs, conns, ended>>)
Entry(g) == [id |-> myid[g], g |-> g, p |-> n[g] + 1]
Register(g) == /\ pc[g] = "register" /\ At(g, "lock")
               /\ acks' = (IF Defect = "latereg" THEN acks ELSE {a \in acks : a.id # myid[g]} \cup {Entry(g)})
               /\ U(<<n, att, myid, nextid, handle, lock, wire, peer, inq, rpc, racks, ran, cbs, conns, ended>>)
Lock(g) == /\ pc[g] = "lock" /\ (Defect = "nolock" \/ lock = 0) /\ lock' = (IF Defect = "nolock" THEN 0 ELSE g) /\ At(g, "header")
           /\ U(<<n, att, myid, nextid, acks, handle, wire, peer, inq, rpc, racks, ran, cbs, conns, ended>>)
Header(g) == /\ pc[g] = "header" /\ At(g, "frames") /\ att' = [att EXCEPT ![g] = 0]
             /\ wire' = Append(wire, [g |-> g, p |-> n[g] + 1, a |-> 0, id |-> myid[g]])
             /\ U(<<n, myid, nextid, acks, handle, lock, peer, inq, rpc, racks, ran, cbs, conns, ended>>)
Frame(g) == /\ pc[g] = "frames" /\ att[g] < NA /\ att' = [att EXCEPT ![g] = @ + 1]
            /\ wire' = Append(wire, [g |-> g, p |-> n[g] + 1, a |-> att[g] + 1, id |-> myid[g]])
            /\ U(<<pc, n, myid, nextid, acks, handle, lock, peer, inq, rpc, racks, ran, cbs, conns, ended>>)
Done(g) == /\ pc[g] = "frames" /\ att[g] = NA /\ At(g, "idle") /\ n' = [n EXCEPT ![g] = @ + 1] /\ lock' = 0
           /\ acks' = (IF Defect = "latereg" THEN acks \cup {[Entry(g) EXCEPT !.p = n[g] + 1]} ELSE acks)
           /\ U(<<att, myid, nextid, handle, wire, peer, inq, rpc, racks, ran, cbs, conns, ended>>)

(* the peer answers what it has received completely, perhaps twice; it connects and disconnects; it goes away *)
Complete(i) == wire[i].a = NA
Answer == /\ \E i \in 1..Len(wire) : /\ Complete(i) /\ Cardinality({j \in 1..Len(inq) : inq[j] = <<"ack", wire[i].id>>}) = 0
                                    /\ \/ <<i>> \notin peer /\ peer' = peer \cup {<<i>>}
                                       \/ <<i>> \in peer /\ <<i, i>> \notin peer /\ peer' = peer \cup {<<i, i>>}   \* a duplicate
                                    /\ inq' = Append(inq, <<"ack", wire[i].id>>)
          /\ Len(inq) < 2 /\ U(<<pc, n, att, myid, nextid, acks, handle, lock, wire, rpc, racks, ran, cbs, conns, ended>>)
PeerConn == /\ conns < NConn /\ Len(inq) < 2 /\ conns' = conns + 1 /\ \E c \in {"connect", "disconnect"} : inq' = Append(inq, <<c, 0>>)
            /\ U(<<pc, n, att, myid, nextid, acks, handle, lock, wire, peer, rpc, racks, ran, cbs, ended>>)

(* the reader *)
Read == /\ rpc = "idle" /\ inq # <<>> /\ inq' = Tail(inq)
        /\ LET p == Head(inq) IN
           CASE p[1] = "ack" ->
                  LET found == {a \in acks : a.id = p[2]} IN
                  /\ IF found = {} THEN U(<<acks, ran>>)
                     ELSE LET a == CHOOSE a \in found : TRUE IN
                          /\ ran' = Append(ran, <<a.g, a.p>>) /\ acks' = (IF Defect = "nodelete" THEN acks ELSE acks \ found)
                  /\ U(<<handle, cbs>>)
             [] p[1] = "connect" -> IF handle # 0 THEN U(<<handle, acks, cbs, ran>>)
                                    ELSE handle' = 1 /\ acks' = {} /\ cbs' = Append(cbs, "connect") /\ U(ran)
             [] OTHER -> IF handle = 0 /\ Defect # "notify" THEN U(<<handle, acks, cbs, ran>>)
                         ELSE handle' = 0 /\ acks' = {} /\ cbs' = Append(cbs, "disconnect") /\ U(ran)
        /\ U(<<pc, n, att, myid, nextid, lock, wire, peer, rpc, racks, conns, ended>>)
EndSession == /\ ~ended /\ ended' = TRUE /\ inq' = <<>> /\ rpc' = "ended"
              /\ IF handle = 0 THEN U(<<handle, cbs, acks>>) ELSE handle' = 0 /\ acks' = {} /\ cbs' = Append(cbs, "disconnect")
              /\ U(<<pc, n, att, myid, nextid, lock, wire, peer, racks, ran, conns>>)
Next == \/ \E g \in G : Start(g) \/ ReadId(g) \/ WriteId(g) \/ Register(g) \/ Lock(g) \/ Header(g) \/ Frame(g) \/ Done(g)
        \/ Answer \/ PeerConn \/ Read \/ EndSession
Spec == Init /\ [][Next]_vars

(* C12: a header is followed at once by its own attachments *)
Contiguous == \A i \in 1..Len(wire) : wire[i].a > 0 => i > 1 /\ wire[i-1].g = wire[i].g /\ wire[i-1].p = wire[i].p /\ wire[i-1].a = wire[i].a - 1
(* C11: ids of one namespace are distinct (while it stays connected); no callback runs twice, and only that of the request answered *)
Distinct == NConn = 0 => \A i, j \in 1..Len(wire) : (wire[i].a = 0 /\ wire[j].a = 0 /\ wire[i].id = wire[j].id) => i = j
Once == \A i, j \in 1..Len(ran) : ran[i] = ran[j] => i = j
Answered == \A i \in 1..Len(ran) : \E j \in 1..Len(wire) : wire[j].g = ran[i][1] /\ wire[j].p = ran[i][2]
(* an answered request has run its callback by the time nothing is on its way, if the namespace was never disconnected *)
Ran == (NConn = 0 /\ ~ended /\ inq = <<>>) => \A i \in 1..Len(wire) : <<i>> \in peer => \E k \in 1..Len(ran) : ran[k] = <<wire[i].g, wire[i].p>>
(* C10: callbacks alternate, and a disconnect is the last *)
Alternate == \A i \in 1..Len(cbs) : cbs[i] = IF i % 2 = 1 THEN "connect" ELSE "disconnect"
Final == ended => cbs[Len(cbs)] = "disconnect"
=============================================================================
