---------------------------- MODULE AdmissionMC ----------------------------
(* The table of Admission, and a server shaped like the code - checks in order, a table of sessions, an opener that stops *)
(* with the server - which has to agree with it for every request, schedule of handshakes and moment of closing.         *)
EXTENDS Admission, FiniteSets
CONSTANTS NReq, Defect
Requests == [method : {"GET", "POST"}, eio : {"3", "4"}, tr : {"polling", "websocket", "other"}, sid : {"none", "live", "gone"}, origin : {"a", "b"}, ws : BOOLEAN]
Checks == {<<>>, <<<<"a">>>>, <<<<"any">>, <<"a">>>>, <<<<"a", "b">>>>, <<<<"a">>, <<"b">>>>}
VARIABLES req, pc, checks, closed, table, opened, answer, sids, handed, was
vars == <<req, pc, checks, closed, table, opened, answer, sids, handed, was>>
R == 1..NReq
(* the sessions of req i has id i; session 0 is there from the start, on polling *)
Init == /\ req \in [R -> Requests] /\ checks \in Checks /\ closed = FALSE
        /\ pc = [i \in R |-> "new"] /\ table = {0} /\ opened = {} /\ answer = [i \in R |-> "none"]
        /\ sids = {0} /\ handed = {} /\ was = [i \in R |-> "open"]
Refuse(i) == pc' = [pc EXCEPT ![i] = "done"] /\ answer' = [answer EXCEPT ![i] = "refused"]
Look(i) ==
  LET r == req[i] IN
  /\ pc[i] = "new" /\ was' = [was EXCEPT ![i] = IF closed THEN "closed" ELSE "open"]
  /\ UNCHANGED <<req, checks, closed, opened, handed>>
  /\ IF r.eio # "3" \/ r.tr \notin Transports THEN Refuse(i) /\ UNCHANGED <<table, sids>>
     ELSE IF r.sid = "none"
     THEN IF closed /\ Defect # "closed" THEN Refuse(i) /\ UNCHANGED <<table, sids>>
          ELSE IF (r.method # "GET" /\ Defect # "method") \/ ~Passes(checks, r.origin) \/ (r.tr = "websocket" /\ ~(r.ws /\ r.method = "GET")) THEN Refuse(i) /\ UNCHANGED <<table, sids>>
          ELSE pc' = [pc EXCEPT ![i] = "made"] /\ table' = table \cup {i} /\ sids' = sids \cup {i} /\ UNCHANGED answer
     ELSE IF r.sid = "gone" THEN Refuse(i) /\ UNCHANGED <<table, sids>>
     ELSE /\ UNCHANGED <<table, sids>>
          /\ IF r.tr = "websocket" /\ ~r.ws THEN Refuse(i) ELSE pc' = [pc EXCEPT ![i] = "done"] /\ answer' = [answer EXCEPT ![i] = "own"]
Hand(i) == /\ pc[i] = "made" /\ UNCHANGED <<req, checks, closed, sids, was>>
           /\ \/ ~closed /\ pc' = [pc EXCEPT ![i] = "handed"] /\ handed' = handed \cup {i} /\ UNCHANGED <<table, opened, answer>>
              \/ closed /\ Defect # "block" /\ Refuse(i) /\ (IF Defect = "leave" THEN UNCHANGED table ELSE table' = table \ {i}) /\ UNCHANGED <<opened, handed>>
Opener(i) == /\ i \in handed /\ handed' = handed \ {i} /\ opened' = opened \cup {i} /\ pc' = [pc EXCEPT ![i] = "done"]
             /\ answer' = [answer EXCEPT ![i] = "open"] /\ UNCHANGED <<req, checks, closed, table, sids, was>>
Close == ~closed /\ closed' = TRUE /\ UNCHANGED <<req, pc, checks, table, opened, answer, sids, handed, was>>
Next == Close \/ \E i \in R : Look(i) \/ Hand(i) \/ Opener(i)
Fair == WF_vars(\E i \in R : Look(i) \/ Hand(i) \/ Opener(i))
Spec == Init /\ [][Next]_vars /\ Fair
Agrees == \A i \in R : pc[i] = "done" =>
  LET v == Verdict(req[i], "polling", checks, FALSE) IN
  CASE v = "refuse" -> answer[i] = "refused" /\ i \notin opened /\ i \notin sids
    [] v = "own" -> answer[i] \in {"own", "refused"} /\ i \notin opened /\ i \notin sids
    [] OTHER -> IF was[i] = "closed" THEN answer[i] = "refused" /\ i \notin opened /\ i \notin table
                ELSE (answer[i] = "open" /\ i \in opened /\ i \in table) \/ (closed /\ answer[i] = "refused" /\ i \notin opened /\ i \notin table)
Answered == <>(\A i \in R : pc[i] = "done")
=============================================================================
