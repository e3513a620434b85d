---------------------------- MODULE SessionGen ----------------------------
(* Environment scripts for real engine.io sessions: what clients, applications and schedulers may do, in every order. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Depth,    \* length of a script
          Profile,  \* which operations
          NS        \* sessions
VARIABLES fin, hist, st, cst, ncand, posted, blocked, held, ended
vars == <<fin, hist, st, cst, ncand, posted, blocked, held, ended>>
Sess == 1..NS
One(X) == {RandomElement(X)}
Pick(X, any) == RandomElement(X)
Do(rec) == hist' = Append(hist, rec)
(* st: none, polling, asked (to switch), websocket, over;  cst: candidate of s: none, open, pinged, spoilt *)
Init == /\ fin = FALSE /\ hist = <<>> /\ st = [s \in Sess |-> "none"] /\ cst = [s \in Sess |-> "none"] /\ ncand = 0
        /\ posted = [s \in Sess |-> 0] /\ blocked = {} /\ held = {} /\ ended = {}
Live(s) == st[s] \in {"polling", "asked", "websocket"}
same(v) == UNCHANGED v

New(s, tr) == /\ st[s] = "none"
              /\ \E mode \in One(0..3), b \in One(IF Profile = "many" THEN {TRUE, FALSE, FALSE} ELSE {FALSE}) :
                    Do([op |-> "new", s |-> s, tr |-> tr, mode |-> mode, pump |-> Profile \in {"idle", "lapse", "silence"}, block |-> b,
                        limit |-> IF Profile = "linger" THEN Pick({600, 8192, 100000}, s) ELSE 0])
                    /\ blocked' = IF b THEN blocked \cup {s} ELSE blocked
              /\ st' = [st EXCEPT ![s] = IF tr = "goclient" THEN "websocket" ELSE tr] /\ UNCHANGED <<cst, ncand, posted, held, ended>>
SSend(s, k, snd, cls) == Live(s) /\ Do([op |-> "ssend", s |-> s, snd |-> snd, k |-> k, cls |-> cls]) /\ UNCHANGED <<st, cst, ncand, posted, blocked, held, ended>>
(* a client has no more outstanding than the server buffers while it upgrades, or it could not finish posting *)
CSend(s, k, cls) == /\ st[s] = "websocket" \/ posted[s] + k <= 7 \/ (st[s] = "polling" /\ cst[s] = "none" /\ s \notin blocked)
                    /\ Live(s) /\ st[s] # "asked"
                    /\ Do([op |-> "csend", s |-> s, k |-> k, cls |-> cls]) /\ posted' = [posted EXCEPT ![s] = @ + k]
                    /\ UNCHANGED <<st, cst, ncand, blocked, held, ended>>
Plain(s, op) == Live(s) /\ Do([op |-> op, s |-> s]) /\ UNCHANGED <<st, cst, ncand, posted, blocked, held, ended>>
Poll(s) == Profile \notin {"idle", "lapse", "silence"} /\ st[s] = "polling" /\ \E op \in One({"poll", "pump", "nopump"}) : Plain(s, op)
Ping(s, bin) == st[s] # "asked" /\ Live(s) /\ Do([op |-> "ping", s |-> s, bin |-> bin]) /\ UNCHANGED <<st, cst, ncand, posted, blocked, held, ended>>
Block(s) == Live(s) /\ s \notin blocked /\ Do([op |-> "block", s |-> s]) /\ blocked' = blocked \cup {s} /\ UNCHANGED <<st, cst, ncand, posted, held, ended>>
Unblock(s) == s \in blocked /\ Do([op |-> "unblock", s |-> s]) /\ blocked' = blocked \ {s} /\ UNCHANGED <<st, cst, ncand, posted, held, ended>>
Quiet == Do([op |-> "quiet"]) /\ posted' = [s \in Sess |-> 0] /\ blocked' = {} /\ held' = {} /\ (\A s \in Sess : st[s] # "asked" /\ cst[s] # "pinged") /\ UNCHANGED <<st, cst, ncand, ended>>

(* candidates *)
Cand(s) == /\ st[s] = "polling" /\ cst[s] = "none" /\ posted[s] <= 7 /\ Do([op |-> "cand", s |-> s, c |-> 10 * s + ncand + 1, bad |-> FALSE])
           /\ cst' = [cst EXCEPT ![s] = "open"] /\ ncand' = ncand + 1 /\ UNCHANGED <<st, posted, blocked, held, ended>>
cno(s) == CHOOSE c \in {hist[i].c : i \in {i \in 1..Len(hist) : hist[i].op \in {"cand", "cfull"} /\ hist[i].s = s}} :
             \A i \in 1..Len(hist) : (hist[i].op \in {"cand", "cfull"} /\ hist[i].s = s) => hist[i].c <= c
COp(s, op, from, to) == /\ cst[s] \in from /\ st[s] = "polling" /\ Do([op |-> op, s |-> s, c |-> cno(s)])
                        /\ cst' = [cst EXCEPT ![s] = to] /\ UNCHANGED <<st, ncand, posted, blocked, held, ended>>
CPing(s) == COp(s, "cping", {"open"}, "pinged")
CUp(s) == /\ cst[s] \in {"pinged"} /\ st[s] = "polling" /\ Do([op |-> "cup", s |-> s, c |-> cno(s)])
          /\ st' = [st EXCEPT ![s] = "asked"] /\ cst' = [cst EXCEPT ![s] = "won"] /\ UNCHANGED <<ncand, posted, blocked, held, ended>>
CFast(s) == /\ cst[s] = "open" /\ st[s] = "polling" /\ Do([op |-> "cfast", s |-> s, c |-> cno(s)])
            /\ st' = [st EXCEPT ![s] = "asked"] /\ cst' = [cst EXCEPT ![s] = "won"] /\ UNCHANGED <<ncand, posted, blocked, held, ended>>
CFull(s) == /\ st[s] = "polling" /\ cst[s] = "none" /\ posted[s] <= 7 /\ Do([op |-> "cfull", s |-> s, c |-> 10 * s + ncand + 1]) /\ ncand' = ncand + 1
            /\ st' = [st EXCEPT ![s] = "websocket"] /\ cst' = [cst EXCEPT ![s] = "won"] /\ UNCHANGED <<posted, blocked, held, ended>>
Arrived(s) == /\ st[s] = "asked" /\ st' = [st EXCEPT ![s] = "websocket"] /\ UNCHANGED <<cst, ncand, posted, blocked, held, ended>>
              /\ IF s \in blocked THEN Do([op |-> "settle"]) ELSE Do([op |-> "upwait", s |-> s])
(* wrong moves of a candidate; it must be closed and the session goes on, so another candidate may come *)
CRaw(s, t) == /\ cst[s] \in {"open", "pinged", "spoilt"} /\ st[s] = "polling"
              /\ (t = 7) => (cst[s] # "open")
              /\ Do([op |-> "csendraw", s |-> s, c |-> cno(s), type |-> IF t = 7 THEN 2 ELSE t, data |-> "x"])
              /\ cst' = [cst EXCEPT ![s] = "spoilt"] /\ UNCHANGED <<st, ncand, posted, blocked, held, ended>>
CWrong(s) == \/ \E t \in One({0, 1, 3, 4, 6, 7}) : CRaw(s, t)
             \/ COp(s, "cgarbage", {"open", "pinged"}, "spoilt")
             \/ COp(s, "cdrop", {"open", "pinged"}, "spoilt")
             \/ COp(s, "cupraw", {"open", "spoilt"}, "spoilt")
CRefused(s) == /\ st[s] = "polling" /\ cst[s] = "none" /\ Do([op |-> "cand", s |-> s, c |-> 10 * s + ncand + 1, bad |-> TRUE])
               /\ ncand' = ncand + 1 /\ UNCHANGED <<st, cst, posted, blocked, held, ended>>
CSilent(s) == /\ cst[s] \in {"open", "pinged"} /\ st[s] = "polling" /\ s \notin blocked /\ Do([op |-> "cwait", s |-> s, c |-> cno(s), alive |-> TRUE])
              /\ cst' = [cst EXCEPT ![s] = "none"] /\ UNCHANGED <<st, ncand, posted, blocked, held, ended>>
CGone(s) == COp(s, "cwait", {"spoilt"}, "none")
Stray(s) == /\ st[s] = "websocket" /\ cst[s] = "won" /\ s \notin blocked
            /\ \E m \in One({"GET", "POST"}) : Do([op |-> "stray", s |-> s, method |-> m]) /\ UNCHANGED <<st, cst, ncand, posted, blocked, held, ended>>

Sizes == {1, 2, 5, 9, 20}
(* sessions whose client is one of the engine's own *)
GoSend(s) == \E k \in One(Sizes), snd \in One(1..3) : Live(s) /\ Do([op |-> "csend", s |-> s, snd |-> snd, k |-> k, cls |-> -1]) /\ UNCHANGED <<st, cst, ncand, posted, blocked, held, ended>>
GoBlock(s) == Live(s) /\ \E op \in One({"cblock", "cunblock", "cunblock", "block", "unblock"}) : Do([op |-> op, s |-> s]) /\ UNCHANGED <<st, cst, ncand, posted, blocked, held, ended>>
(* scheduling points of the implementation *)
Points == {"emitter.write", "emitter.submit", "socket.read", "socket.readfailed", "socket.replaced", "upgrade.pause", "upgrade.replace",
           "polling.read", "polling.poll", "polling.write", "polling.post"}
Hold == Cardinality(held) < 2 /\ \E p \in One(Points \ held) : Do([op |-> "hold", p |-> p]) /\ held' = held \cup {p} /\ UNCHANGED <<st, cst, ncand, posted, blocked, ended>>
Release == held # {} /\ \E p \in One(held) : Do([op |-> "release", p |-> p]) /\ held' = held \ {p} /\ UNCHANGED <<st, cst, ncand, posted, blocked, ended>>

(* ends *)
End(s, op) == /\ Live(s) /\ Do([op |-> op, s |-> s]) /\ st' = [st EXCEPT ![s] = "over"] /\ UNCHANGED <<cst, ncand, posted, blocked, held, ended>>
Over(s) == st[s] = "over" /\ \E op \in {"await", "sclose", "ssend"} \cup (IF Profile = "client" THEN {"cclose", "csend"} ELSE {}) :
             /\ (op = "await") => (s \notin blocked)
             /\ Do(IF op \in {"ssend", "csend"} THEN [op |-> op, s |-> s, snd |-> 1, k |-> 2, cls |-> 0] ELSE [op |-> op, s |-> s])
             /\ UNCHANGED <<st, cst, ncand, posted, blocked, held, ended>>
(* an end while the other side is slow: it takes what it has been sent only d1 + d2 later, within the timeout *)
IsGo(s) == \E i \in 1..Len(hist) : hist[i].op = "new" /\ hist[i].s = s /\ hist[i].tr = "goclient"
Linger(s) == /\ st[s] = "websocket" /\ Len(hist) > 3
             /\ \E d1 \in One({0, 1, 20000}), d2 \in One({1, 999, 1001, 4000, 10500, 31000, 38000}), k \in One({1, 2, 5, 9, 20}), snd \in One(1..3), cls \in One({-1, 3, 4, 11}), dir \in One({"s", "c"}) :
                   Do([op |-> "linger", s |-> s, dir |-> IF IsGo(s) THEN dir ELSE "s", snd |-> snd, k |-> k, cls |-> cls, d1 |-> d1, d2 |-> d2])
             /\ st' = [st EXCEPT ![s] = "over"] /\ UNCHANGED <<cst, ncand, posted, blocked, held, ended>>
Brief == \E d \in One({1, 500}) : Do([op |-> "adv", d |-> d]) /\ UNCHANGED <<st, cst, ncand, posted, blocked, held, ended>>
Adv == \E d \in One({1, 500, 10000, 20000, 30000, 70000} \cup IF Profile = "lapse" THEN {24999, 59999, 84999, 85000, 85001} ELSE {}) : Do([op |-> "adv", d |-> d]) /\ UNCHANGED <<st, cst, ncand, posted, blocked, held, ended>>

Traffic == \E s \in Sess : \/ \E k \in One(Sizes), snd \in One(1..3) : SSend(s, k, snd, -1)
                           \/ \E k \in One(Sizes), snd \in One(1..3) : SSend(s, k, snd, -1)
                           \/ \E k \in One(Sizes) : CSend(s, k, -1)
                           \/ Poll(s)
Upgrades == \E s \in Sess : \/ Cand(s) \/ CPing(s) \/ CUp(s) \/ Arrived(s) \/ Stray(s)
Begin == \E s \in Sess : /\ \A r \in 1..s-1 : st[r] # "none"
                         /\ CASE Profile \in {"upgrade", "probe", "silence"} -> New(s, "polling")
                              [] Profile = "client" -> New(s, "goclient")
                              [] Profile = "linger" -> New(s, "goclient") \/ New(s, "websocket")
                              [] Profile = "close" -> New(s, "websocket") \/ New(s, "polling")
                              [] OTHER -> New(s, "polling") \/ New(s, "websocket")
Ready == \E s \in Sess : st[s] # "none"
Ops ==
  CASE Profile = "upgrade"  -> Traffic \/ Upgrades \/ Upgrades \/ Hold \/ Release \/ (\E s \in Sess : Block(s) \/ Unblock(s) \/ CFast(s))
    [] Profile = "probe"    -> Traffic \/ Upgrades \/ Upgrades \/ Upgrades \/ Hold \/ Release \/ (\E s \in Sess : CWrong(s) \/ CRefused(s) \/ CGone(s) \/ CGone(s) \/ Ping(s, FALSE))
    [] Profile = "silence"  -> (\E s \in Sess : CSilent(s) \/ CSilent(s) \/ CRefused(s) \/ Ping(s, FALSE) \/ Poll(s)) \/ Upgrades \/ Upgrades \/ Traffic
    [] Profile = "many"     -> Traffic \/ Traffic \/ Traffic \/ Upgrades \/ Upgrades \/ Hold \/ Release
                               \/ (\E s \in Sess : Block(s) \/ Block(s) \/ CFast(s) \/ CWrong(s) \/ CGone(s) \/ Over(s)
                                     \/ (st[s] # "asked" /\ cst[s] # "pinged" /\ Live(s) /\ Do([op |-> "arrive", s |-> s]) /\ blocked' = blocked \ {s}
                                           /\ posted' = [posted EXCEPT ![s] = 0] /\ UNCHANGED <<st, cst, ncand, held, ended>>)
                                     \/ (Len(hist) > Depth \div 3 /\ (End(s, "sclose") \/ (st[s] = "websocket" /\ (End(s, "drop") \/ End(s, "badframe"))))))
    [] Profile = "lapse"    -> Traffic \/ Adv \/ Adv \/ Quiet \/ (\E s \in Sess : CFull(s) \/ Ping(s, TRUE) \/ Ping(s, FALSE)
                               \/ (Len(hist) > Depth \div 2 /\ (End(s, "sclose") \/ End(s, "closepkt") \/ (st[s] = "websocket" /\ (End(s, "drop") \/ End(s, "badframe") \/ End(s, "emptyframe"))))))
    [] Profile = "messages" -> Traffic \/ Traffic \/ Hold \/ Release \/ Quiet \/ (\E s \in Sess : Block(s) \/ Unblock(s) \/ Ping(s, TRUE) \/ Ping(s, FALSE))
    [] Profile = "idle"     -> Traffic \/ Adv \/ Quiet \/ (\E s \in Sess : CFull(s) \/ Ping(s, TRUE) \/ Ping(s, FALSE) \/ Ping(s, FALSE))
    [] Profile = "end"      -> Traffic \/ Upgrades \/ Hold \/ Release
                               \/ (\E s \in Sess : Block(s) \/ Unblock(s) \/ Over(s) \/ CFast(s)
                                     \/ (Len(hist) > Depth \div 3 /\ (End(s, "sclose") \/ (st[s] # "asked" /\ End(s, "closepkt"))
                                          \/ (st[s] = "websocket" /\ (End(s, "drop") \/ End(s, "badframe") \/ End(s, "emptyframe"))))))
    [] Profile = "client"   -> Hold \/ Release
                               \/ (\E s \in Sess : Over(s) \/ GoSend(s) \/ GoSend(s) \/ GoBlock(s) \/ (\E k \in One(Sizes), snd \in One(1..3) : SSend(s, k, snd, -1))
                                      \/ (Len(hist) > Depth \div 3 /\ \E op \in One({"sclose", "cclose", "cclose", "drop", "sclosepkt"}) : End(s, op)))
    [] Profile = "linger"   -> Brief \/ Quiet \/ (\E s \in Sess : Linger(s) \/ Over(s) \/ (\E k \in One({1, 2, 5}), snd \in One(1..3) : SSend(s, k, snd, -1) \/ (IsGo(s) /\ Live(s)
                                  /\ Do([op |-> "csend", s |-> s, snd |-> snd, k |-> k, cls |-> -1]) /\ UNCHANGED <<st, cst, ncand, posted, blocked, held, ended>>)))
    [] Profile = "close"    -> Traffic \/ Hold \/ Release
                               \/ (\E s \in Sess : Over(s) \/ CFull(s) \/ (Len(hist) > Depth \div 4 /\ st[s] = "websocket" /\ End(s, "sclose")))
Next == \/ Len(hist) < Depth /\ (Begin \/ (Ready /\ Ops)) /\ UNCHANGED fin
        \/ Len(hist) = Depth /\ ~fin /\ fin' = TRUE /\ UNCHANGED <<hist, st, cst, ncand, posted, blocked, held, ended>>
Spec == Init /\ [][Next]_vars
Emit == fin => PrintT(<<"SCRIPT", ToJson(hist)>>)
=============================================================================
