----------------------------- MODULE EioClient -----------------------------
(* An engine.io client as its user and its server see it, with time in milliseconds: dialling, pings, messages both     *)
(* ways, and the end for whatever reason. Properties C19, and the client's part of C01, C06, C07 and C08.                *)
EXTENDS Integers, Sequences, TLC
VARIABLES
  ph,     \* "none" -> "opening" -> "failed" or "up" -> "over"
  want,   \* whether the first packet is a well-formed OPEN
  sid, int, tmo,
  start,  \* when the session began
  nping,  \* pings seen
  heard,  \* when the client last received a packet
  tosrv,  \* messages the user sent and the server has not seen yet
  tocli,  \* messages the server sent and the message handler has not been given yet
  cut,    \* what the server sent before the end may be lost
  endat,  \* when the end was caused
  ends,   \* close callbacks owed: 0 or 1, and 2 once it has run
  gone    \* the server has seen the end of the connection
clivars == <<ph, want, sid, int, tmo, start, nping, heard, tosrv, tocli, cut, endat, ends, gone>>
CliInit == /\ ph = "none" /\ want = FALSE /\ sid = "" /\ int = 0 /\ tmo = 0 /\ start = 0 /\ nping = 0 /\ heard = 0 /\ tosrv = <<>>
           /\ tocli = <<>> /\ cut = FALSE /\ endat = 0 /\ ends = 0 /\ gone = FALSE
Reset == /\ ph' = "none" /\ want' = FALSE /\ sid' = "" /\ int' = 0 /\ tmo' = 0 /\ start' = 0 /\ nping' = 0 /\ heard' = 0 /\ tosrv' = <<>>
         /\ tocli' = <<>> /\ cut' = FALSE /\ endat' = 0 /\ ends' = 0 /\ gone' = FALSE

(* Is the first packet a well-formed OPEN? typ is its packet type, json what its data is *)
Good(typ, json) == typ = "open" /\ json = "params"
First(typ, json, s, i, t, at) ==
  /\ ph = "none" /\ ph' = "opening" /\ want' = Good(typ, json) /\ sid' = s /\ int' = i /\ tmo' = t /\ start' = at /\ heard' = at
  /\ UNCHANGED <<nping, tosrv, tocli, cut, endat, ends, gone>>
(* the connection fails instead *)
Refuse == ph \in {"none"} /\ ph' = "opening" /\ want' = FALSE /\ gone' = TRUE /\ UNCHANGED <<sid, int, tmo, start, nping, heard, tosrv, tocli, cut, endat, ends>>
Dialled(ok, s) == /\ ph \in {"opening", "up", "over"} /\ ok = want /\ (ok => s = sid)
                  /\ ph' = IF ph # "opening" THEN ph ELSE IF ok THEN "up" ELSE "failed"
                  /\ UNCHANGED <<want, sid, int, tmo, start, nping, heard, tosrv, tocli, cut, endat, ends, gone>>
Up == ph = "up" \/ (ph = "opening" /\ want)   \* packets right behind OPEN may be handled before Dial returns

NextPing == start + (nping + 1) * int
Deadline == heard + int + tmo
Causes(c, at) == ph' = "over" /\ cut' = c /\ endat' = at /\ ends' = 1
Ping(at) == /\ (Up \/ (ph = "over" /\ at = endat)) /\ at = NextPing /\ nping' = nping + 1
            /\ UNCHANGED <<ph, want, sid, int, tmo, start, heard, tosrv, tocli, cut, endat, ends, gone>>
(* the server sends something *)
Send(typ, m, at) ==
  /\ IF ~Up THEN UNCHANGED <<ph, heard, tocli, cut, endat, ends>>
     ELSE /\ heard' = at
          /\ tocli' = IF typ = "message" THEN Append(tocli, m) ELSE tocli
          /\ IF typ = "close" THEN Causes(FALSE, at) ELSE UNCHANGED <<ph, cut, endat, ends>>
  /\ UNCHANGED <<want, sid, int, tmo, start, nping, tosrv, gone>>
Drop(at) == /\ IF Up THEN Causes(FALSE, at) ELSE UNCHANGED <<ph, cut, endat, ends>>
            /\ gone' = TRUE /\ UNCHANGED <<want, sid, int, tmo, start, nping, heard, tosrv, tocli>>
Close(at) == /\ IF Up THEN Causes(TRUE, at) ELSE UNCHANGED <<ph, cut, endat, ends>>
             /\ UNCHANGED <<want, sid, int, tmo, start, nping, heard, tosrv, tocli, gone>>
(* what the server receives *)
Got(m) == tosrv # <<>> /\ Head(tosrv) = m /\ tosrv' = Tail(tosrv) /\ UNCHANGED <<ph, want, sid, int, tmo, start, nping, heard, tocli, cut, endat, ends, gone>>
PeerEnd(at) == /\ (ph \in {"over", "failed"} \/ (ph = "opening" /\ ~want) \/ (Up /\ at = Deadline)) /\ ~gone
               /\ gone' = TRUE
               /\ tosrv = <<>>      \* what was sent before the end has arrived
               /\ IF Up THEN Causes(TRUE, at) ELSE UNCHANGED <<ph, cut, endat, ends>>
               /\ UNCHANGED <<want, sid, int, tmo, start, nping, heard, tosrv, tocli>>
(* the user *)
Sent(m, ok) == /\ ph \in {"up", "over"}  /\ ok = (ph = "up")
               /\ tosrv' = IF ok THEN Append(tosrv, m) ELSE tosrv
               /\ UNCHANGED <<ph, want, sid, int, tmo, start, nping, heard, tocli, cut, endat, ends, gone>>
Recv(m) == /\ ends # 2 /\ tocli # <<>> /\ Head(tocli) = m /\ tocli' = Tail(tocli)
           /\ UNCHANGED <<ph, want, sid, int, tmo, start, nping, heard, tosrv, cut, endat, ends, gone>>
CloseCb(at) ==
  /\ \/ ends = 1 /\ at = endat /\ (tocli = <<>> \/ cut) /\ ends' = 2 /\ UNCHANGED <<ph, cut, endat>>
     \/ ends = 0 /\ Up /\ at = Deadline /\ tocli = <<>> /\ ends' = 2 /\ ph' = "over" /\ cut' = TRUE /\ endat' = at
  /\ UNCHANGED <<want, sid, int, tmo, start, nping, heard, tosrv, tocli, gone>>
Settled(at) ==
  /\ ph \in {"up", "over", "failed"}
  /\ ph = "up" => at < NextPing /\ at < Deadline /\ tocli = <<>> /\ tosrv = <<>>
  /\ ph = "over" => ends = 2 /\ gone /\ (tocli = <<>> \/ cut)
  /\ ph = "failed" => ends = 0 /\ gone     \* nothing keeps running
  /\ UNCHANGED clivars
=============================================================================
