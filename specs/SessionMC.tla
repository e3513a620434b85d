----------------------------- MODULE SessionMC -----------------------------
(* Session, closed under a small environment and explored exhaustively: what the actions of Session allow implies the *)
(* properties as their readers would put them (prefixes, at most once, complete probes), stated over history variables *)
EXTENDS Session
CONSTANTS Sessions, Cands, MaxMsg, Senders, WithUpgrade
VARIABLES sentlog, recvlog, closes, ups, probes, did
mvars == <<svars, sentlog, recvlog, closes, ups, probes, did>>
Dirs == {"s", "c"}
Key(s, d, x) == <<s, d, x>>
MInit == SInit /\ sentlog = <<>> /\ recvlog = <<>> /\ closes = [s \in Sessions |-> 0] /\ ups = [s \in Sessions |-> 0]
         /\ probes = [c \in Cands |-> <<>>] /\ did = [s \in Sessions |-> <<>>]
next_m == Len(sentlog) + 1
hv == <<sentlog, recvlog, closes, ups, probes, did>>
Up == \E s \in DOMAIN S : S[s].st # "asked"
Acts(s) ==
  \/ \E tr \in {"polling", "websocket"} : New(s, IF WithUpgrade THEN "polling" ELSE tr, FALSE) /\ UNCHANGED hv
  \/ s \in DOMAIN S /\
     \/ Opened(s) /\ UNCHANGED hv
     \/ OpenCb(s) /\ UNCHANGED hv
     \/ /\ next_m <= MaxMsg
        /\ \E d \in Dirs, x \in Senders : Send(s, d, x, <<next_m>>) /\ sentlog' = Append(sentlog, Key(s, d, x))
        /\ UNCHANGED <<recvlog, closes, ups, probes, did>>
     \/ \E m \in 1..Len(sentlog) : /\ sentlog[m][1] = s /\ m \notin okd \cup failed
                                   /\ \/ SendOk(s, <<m>>)
                                      \/ (S[s].causes # {} \/ ~Alive(s)) /\ SendFailed(s, <<m>>)
                                   /\ UNCHANGED hv
     \/ \E m \in 1..Len(sentlog) : HandlerBegin(s, m) /\ recvlog' = Append(recvlog, <<s, "c", m>>) /\ did' = [did EXCEPT ![s] = Append(@, "hb")] /\ UNCHANGED <<sentlog, closes, ups, probes>>
     \/ \E m \in 1..Len(sentlog) : HandlerEnd(s, m) /\ UNCHANGED hv
     \/ \E m \in 1..Len(sentlog), o \in {"polling", "websocket"} : Receive(s, m, o) /\ recvlog' = Append(recvlog, <<s, "s", m>>) /\ UNCHANGED <<sentlog, closes, ups, probes, did>>
     \/ S[s].causes = {} /\ \E w \in {"server", "packet"} : Cause(s, w) /\ UNCHANGED hv
     \/ "server" \in S[s].causes /\ ~S[s].closed /\ Closed(s) /\ UNCHANGED hv
     \/ WsEnd(s) /\ (S[s].causes # {} \/ ~Alive(s)) /\ UNCHANGED hv
     \/ CloseCb(s, FALSE) /\ closes' = [closes EXCEPT ![s] = @ + 1] /\ did' = [did EXCEPT ![s] = Append(@, "close")] /\ UNCHANGED <<sentlog, recvlog, ups, probes>>
     \/ WithUpgrade /\ Upgraded(s) /\ ups' = [ups EXCEPT ![s] = @ + 1] /\ UNCHANGED <<sentlog, recvlog, closes, probes, did>>
     \/ WithUpgrade /\ \E c \in Cands : Candidate(c, s, 0) /\ UNCHANGED hv
CandActs(c) ==
  /\ c \in DOMAIN K
  /\ \/ \E t \in {"ping", "upgrade", "message"} : Len(probes[c]) < 3 /\ K[c].phase \notin {"over", "won"}
           /\ CandSend(c, t, <<FALSE, "p">>, 0) /\ probes' = [probes EXCEPT ![c] = Append(@, t)]
           /\ UNCHANGED <<sentlog, recvlog, closes, ups, did>>
     \/ CandPong(c, <<FALSE, "p">>) /\ UNCHANGED hv
     \/ K[c].phase # "over" /\ MayEnd(c, FALSE) /\ CandEnd(c) /\ UNCHANGED hv
MNext == (\E s \in Sessions : Acts(s)) \/ (WithUpgrade /\ \E c \in Cands : CandActs(c))
MSpec == MInit /\ [][MNext]_mvars

Of(key) == SelectSeq([i \in 1..Len(sentlog) |-> i], LAMBDA m : sentlog[m] = key)
Got(key) == SelectSeq([i \in 1..Len(recvlog) |-> recvlog[i][3]], LAMBDA m : sentlog[m] = key)
(* each sender's messages arrive in order, once, with nothing left out except what was reported as failed *)
PrefixInv == \A s \in Sessions, d \in Dirs, x \in Senders :
  LET got == Got(Key(s, d, x)) all == Of(Key(s, d, x)) IN
  /\ \A i, j \in 1..Len(got) : i < j => got[i] < got[j]
  /\ Len(got) > 0 => \A i \in 1..Len(all) : all[i] < got[Len(got)] => (all[i] \in Range(got) \/ all[i] \in failed)
OnlyOwn == \A i \in 1..Len(recvlog) : sentlog[recvlog[i][3]][1] = recvlog[i][1] /\ sentlog[recvlog[i][3]][2] = recvlog[i][2]
CloseOnce == \A s \in Sessions : closes[s] <= 1
Final == \A s \in Sessions : \A i \in 1..Len(did[s]) : did[s][i] = "close" => i = Len(did[s])
UpOnce == \A s \in Sessions : ups[s] <= 1
UpOnlyProbed == \A s \in Sessions : ups[s] = 1 => LET c == S[s].via IN Len(probes[c]) >= 2 /\ probes[c][1] = "ping" /\ probes[c][2] = "upgrade"
(* a session that ended because the server closed it, and nothing else, has delivered what had been accepted *)
Delivered == \A s \in DOMAIN S : (S[s].wsend /\ S[s].causes = {"server"}) => owed \cap Accepted(s, "s") = {}
Inv == PrefixInv /\ OnlyOwn /\ CloseOnce /\ Final /\ UpOnce /\ UpOnlyProbed /\ Delivered
=============================================================================
