---------------------------- MODULE SioMsgpTrace ----------------------------
(* What the real encoder, the real decoder and real handlers made of packets and frames, judged by SioMsgp.             *)
EXTENDS SioMsgp, TraceBase
VARIABLES l, d, told, out
vars == <<l, d, told, out>>
e == Trace[l]
Idle == [None EXCEPT !.r = "idle"]
TInit == l = 1 /\ d = Idle /\ told = FALSE /\ out = 0
Same(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Eq(a[i], b[i])
(* one frame: binary for events and acknowledgements, text for the others *)
Encoded == LET p == e.p
               data == p.type \in {EVENT, ACK}
               x == IF data THEN Dec(e.bins[1]) ELSE DecText(e.t) IN
  /\ Len(e.bins) = (IF data THEN 1 ELSE 0) /\ (data => e.t = <<>>)
  /\ x.r = "ok" /\ x.type = p.type /\ x.nsp = p.nsp /\ x.id = p.id /\ x.name = p.name /\ Same(x.args, p.args)
  /\ UNCHANGED <<d, told, out>>
Read == IF e.bin THEN Dec(e.t) ELSE DecText(e.t)
Frame == d' = Read /\ told' = e.err /\ out' = 0 /\ (d'.r = "ok" => ~e.err)
Sent == d' = Read /\ told' = FALSE /\ out' = 0
Deep == d' = Open /\ told' = FALSE /\ out' = 0
Kinds == e.kinds
Taken(kinds, vals) == Len(vals) = Len(kinds) /\ \A i \in 1..Len(kinds) : Eq(vals[i], d.args[i])
(* what the decoder gave, looked into with parameters of the given kinds; err: an error was reported *)
Packet ==
  /\ out' = out + 1 /\ UNCHANGED d /\ told' = (told \/ e.err)
  /\ CASE d.r = "ok" -> /\ out = 0 /\ e.type = d.type /\ e.nsp = d.nsp /\ e.id = d.id
                        /\ IF d.type \notin {EVENT, ACK} THEN ~e.err /\ (IF d.type = ERROR THEN Same(e.vals, d.args) ELSE TRUE)
                           ELSE LET f == Fits(Kinds, d.args) IN
                                /\ (f = "yes" => ~e.err) /\ (f = "no" => e.err)
                                /\ (~e.err => e.name = d.name /\ (f = "yes" => Taken(Kinds, e.vals)))
       [] d.r = "error" -> e.err /\ ~told
       [] OTHER -> TRUE
Done == /\ (d.r = "ok" => out = 1) /\ (d.r = "error" => told)
        /\ d' = Idle /\ told' = FALSE /\ out' = 0
-----------------------------------------------------------------------------
Sigs == <<<<"str", "int">>, <<"iface", "bin">>, <<"strs", "map">>, <<"int8", "uint8", "bool">>, <<>>, <<"f64", "uint64", "int64">>, <<"nest", "pair", "mapnam", "dur", "pstr">>>>
Known == Len(d.name) = 2 /\ d.name[1] = 101 /\ d.name[2] \in 49..55
Mine == d.r = "ok" /\ d.type = EVENT /\ d.nsp = Slash /\ Known
Verdict == Fits(Sigs[d.name[2] - 48], d.args)
Handler == /\ out' = out + 1 /\ UNCHANGED <<d, told>>
           /\ d.r = "any" \/ (Mine /\ out = 0 /\ e.name = d.name /\ Verdict # "no" /\ (Verdict = "yes" => Taken(Sigs[d.name[2] - 48], e.vals)))
Error == told' = TRUE /\ UNCHANGED <<d, out>> /\ (d.r = "ok" => d.type = ERROR \/ (Mine /\ Verdict # "yes"))
Settled == /\ (Mine /\ Verdict = "yes" => out = 1) /\ (Mine /\ Verdict = "no" => told /\ out = 0)
           /\ (d.r = "error" /\ d.nsp = Slash /\ d.type # ACK => told)
           /\ UNCHANGED <<d, told, out>>
Probe == e.ok /\ d' = Idle /\ told' = FALSE /\ out' = 0
-----------------------------------------------------------------------------
Step ==
  CASE e.ev = "reset" -> d' = Idle /\ told' = FALSE /\ out' = 0
    [] e.ev = "encoded" -> Encoded
    [] e.ev = "frame" -> Frame
    [] e.ev = "packet" -> Packet
    [] e.ev = "done" -> Done
    [] e.ev = "deep" -> Deep
    [] e.ev = "sent" -> Sent
    [] e.ev = "handler" -> Handler
    [] e.ev = "error" -> Error
    [] e.ev = "settled" -> Settled
    [] e.ev = "probe" -> Probe
    [] OTHER -> FALSE
TNext == l <= Len(Trace) /\ l' = l + 1 /\ Step
TSpec == TInit /\ [][TNext]_vars
Track == Progress(l)
=============================================================================
