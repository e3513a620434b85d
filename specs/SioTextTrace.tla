---------------------------- MODULE SioTextTrace ----------------------------
(* What the real encoder, the real decoder and real handlers made of packets and texts, judged by SioText.              *)
EXTENDS SioText, TraceBase
VARIABLES
  l,
  d,       \* what the text being decoded means
  got,     \* attachments so far
  told,    \* an error has been reported for it
  out      \* packets (or handler calls) that came of it
vars == <<l, d, got, told, out>>
e == Trace[l]
Idle == [None EXCEPT !.r = "idle"]
TInit == l = 1 /\ d = Idle /\ got = <<>> /\ told = FALSE /\ out = 0
Null == [k |-> "z", v |-> <<>>]
Js(args) == SelectSeq(args, LAMBDA v : ~IsP(v))
Pad(q, n) == [i \in 1..n |-> IF i <= Len(q) THEN q[i] ELSE Null]
Same(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Eq(a[i], b[i])
Complete == d.r = "ok" /\ Len(got) = d.n
(* the encoder: the header is what the grammar says, the data says the same, and the attachments are those given *)
Encoded == LET p == [e.p EXCEPT !.r = "ok"]
               h == Header(p)
               x == Dec(e.t) IN
  /\ Len(e.t) >= Len(h) /\ SubSeq(e.t, 1, Len(h)) = h
  /\ (p.args = <<>> /\ p.type \in {CONNECT, DISCONNECT, ERROR}) => e.t = h
  /\ x.r = "ok" /\ x.type = p.type /\ x.nsp = p.nsp /\ x.id = p.id /\ x.name = p.name /\ x.n = p.n
  /\ Same(x.args, [i \in 1..Len(p.args) |-> IF IsP(p.args[i]) THEN [k |-> "p", v |-> <<0>>] ELSE p.args[i]])
  /\ e.bins = e.given
  /\ UNCHANGED <<d, got, told, out>>
(* a text arrives; err: it was refused at once *)
Text == /\ d' = Dec(e.t) /\ got' = <<>> /\ out' = 0 /\ told' = e.err
        /\ (d'.r = "ok" => ~e.err)
Attachment ==
  CASE d.r = "ok" /\ Len(got) < d.n -> ~e.err /\ got' = Append(got, e.data) /\ UNCHANGED <<d, told, out>>
    [] d.r \in {"ok", "idle"} -> e.err /\ UNCHANGED <<d, got, told, out>>                            \* nobody announced it
    [] d.r = "error" /\ told -> e.err /\ UNCHANGED <<d, got, told, out>>
    [] OTHER -> got' = Append(got, e.data) /\ told' = (told \/ e.err) /\ UNCHANGED <<d, out>>
(* the decoder gives a packet; err: looking into it reports an error *)
Packet ==
  /\ out' = out + 1 /\ UNCHANGED <<d, got>>
  /\ CASE d.r = "ok" -> /\ Complete /\ out = 0 /\ ~e.err /\ e.type = d.type /\ e.nsp = d.nsp /\ e.id = d.id /\ UNCHANGED told
                        /\ IF d.type \in {CONNECT, DISCONNECT, ERROR} THEN (IF d.args = <<>> THEN e.js = <<>> ELSE Same(e.js, d.args))
                           ELSE IF d.type = ACK /\ d.args = <<>> THEN TRUE
                           ELSE e.name = d.name /\ Same(e.js, Pad(Js(d.args), Len(e.js))) /\ Len(Js(d.args)) <= Len(e.js) /\ e.bs = Pad(got, Len(e.bs)) /\ Len(got) <= Len(e.bs)
       [] d.r = "error" -> e.err /\ ~told /\ told' = TRUE
       [] OTHER -> told' = (told \/ e.err)
Done == /\ (d.r = "ok" /\ Len(got) = d.n => out = 1)
        /\ (d.r = "error" /\ e.bins >= d.n => told)
        /\ d' = Idle /\ got' = <<>> /\ told' = FALSE /\ out' = 0
-----------------------------------------------------------------------------
(* end to end: frames to a server whose root namespace has handlers *)
Registered(nm) == nm \in {<<101>>, <<34, 44, 93>>, <<195, 169, 32, 92>>}
Event == d.type \in {EVENT, BINEVENT}
Sent == /\ d' = Dec(e.t) /\ got' = <<>> /\ out' = 0 /\ told' = FALSE
SentBin == got' = Append(got, e.data) /\ UNCHANGED <<d, told, out>>
Handler == /\ out' = out + 1 /\ UNCHANGED <<d, got, told>>
           /\ d.r = "any" \/ (/\ Complete /\ out = 0 /\ Event /\ d.nsp = Slash /\ e.name = d.name /\ Registered(d.name)
                              /\ Same(e.js, Pad(Js(d.args), Len(e.js))) /\ \A i \in 1..Len(e.bs) : e.bs[i] = (IF i <= Len(got) THEN got[i] ELSE ""))
Error == told' = TRUE /\ UNCHANGED <<d, got, out>> /\ (d.r = "ok" => d.type = ERROR \/ Len(got) > d.n)
(* the name the list begins with, if it begins with one *)
Beginning(t) == LET i == Find(t, 1, 91)
                    x == IF i <= Len(t) THEN Val(t, i + 1) ELSE Bad IN IF x.ok /\ x.v.k = "s" THEN x.v.v ELSE <<>>
Settled == /\ (d.r = "ok" /\ Len(got) = d.n /\ Event /\ d.nsp = Slash /\ Registered(d.name)) => out = 1
           /\ (d.r = "error" /\ Len(got) >= d.n /\ d.nsp = Slash /\ d.type \notin {ACK, BINACK} /\ (~Event \/ Beginning(e.t) = <<>> \/ Registered(Beginning(e.t)))) => told
           /\ (Len(got) > d.n /\ d.r = "ok") => told
           /\ UNCHANGED <<d, got, told, out>>
Probe == e.ok /\ d' = Idle /\ got' = <<>> /\ told' = FALSE /\ out' = 0
-----------------------------------------------------------------------------
Step ==
  CASE e.ev = "reset" -> d' = Idle /\ got' = <<>> /\ told' = FALSE /\ out' = 0
    [] e.ev = "encoded" -> Encoded
    [] e.ev = "text" -> Text
    [] e.ev = "bin" -> Attachment
    [] e.ev = "packet" -> Packet
    [] e.ev = "done" -> Done
    [] e.ev = "sent" -> Sent
    [] e.ev = "sentbin" -> SentBin
    [] e.ev = "handler" -> Handler
    [] e.ev = "error" -> Error
    [] e.ev = "settled" -> Settled
    [] e.ev = "probe" -> Probe
    [] OTHER -> FALSE
TNext == l <= Len(Trace) /\ l' = l + 1 /\ Step
TSpec == TInit /\ [][TNext]_vars
Track == Progress(l)
=============================================================================
