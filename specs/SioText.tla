------------------------------ MODULE SioText ------------------------------
(* The text format of Socket.IO packets (the default parser): Enc writes a packet, Dec says what a text means.          *)
(* A packet is [type, nsp, id, name, args, n]: nsp bytes, id its digits (or empty), name bytes, args JSON values, where *)
(* [k |-> "p", v |-> <<i>>] is the place of attachment i; data of other types is in args[1].                             *)
EXTENDS JsonText
CONNECT == 0  DISCONNECT == 1  EVENT == 2  ACK == 3  ERROR == 4  BINEVENT == 5  BINACK == 6
Slash == <<47>>
Placeholder == <<123, 34, 95, 112, 108, 97, 99, 101, 104, 111, 108, 100, 101, 114, 34, 58, 116, 114, 117, 101, 44, 34, 110, 117, 109, 34, 58>>
RECURSIVE Nat2(_)
Nat2(n) == IF n < 10 THEN <<48 + n>> ELSE Append(Nat2(n \div 10), 48 + (n % 10))
IsP(v) == v.k = "p"
Count(args) == Len(SelectSeq(args, IsP))
WriteArg(v) == IF IsP(v) THEN Placeholder \o Nat2(v.v[1]) \o <<125>> ELSE Write(v)
RECURSIVE Join(_, _)
Join(q, sep) == IF q = <<>> THEN <<>> ELSE IF Len(q) = 1 THEN q[1] ELSE q[1] \o sep \o Join(Tail(q), sep)
Header(p) == <<48 + p.type>> \o (IF p.type >= BINEVENT THEN Nat2(p.n) \o <<45>> ELSE <<>>)
             \o (IF p.nsp = Slash THEN <<>> ELSE p.nsp \o <<44>>) \o p.id
Body(p, gap) == IF p.type \in {EVENT, BINEVENT} THEN <<91>> \o gap \o Join(<<Write([k |-> "s", v |-> p.name])>> \o [i \in 1..Len(p.args) |-> WriteArg(p.args[i])], gap \o <<44>> \o gap) \o gap \o <<93>>
           ELSE IF p.type \in {ACK, BINACK} THEN <<91>> \o gap \o Join([i \in 1..Len(p.args) |-> WriteArg(p.args[i])], gap \o <<44>> \o gap) \o gap \o <<93>>
           ELSE Join([i \in 1..Len(p.args) |-> Write(p.args[i])], <<>>)
Enc(p, gap) == Header(p) \o Body(p, gap)

(* r: "ok", "error", or "any" where readers may differ *)
None == [r |-> "error", type |-> 0, nsp |-> Slash, id |-> <<>>, name |-> <<>>, args |-> <<>>, n |-> 0]
Err == None
Open == [None EXCEPT !.r = "any"]
RECURSIVE Find(_, _, _)
Find(t, i, c) == IF i > Len(t) \/ t[i] = c THEN i ELSE Find(t, i + 1, c)
PKey == <<95, 112, 108, 97, 99, 101, 104, 111, 108, 100, 101, 114>>
NKey == <<110, 117, 109>>
(* a value that marks the place of an attachment, and how it is written *)
IsPlace(v) == v.k = "o" /\ Len(v.v) = 2 /\ v.v[1][1] = PKey /\ v.v[1][2].k = "t" /\ v.v[2][1] = NKey /\ v.v[2][2].k = "#" /\ \A i \in 1..Len(v.v[2][2].v) : Digit(v.v[2][2].v[i])
RECURSIVE Mentions(_)
Mentions(v) == CASE v.k = "l" -> \E i \in 1..Len(v.v) : Mentions(v.v[i])
                 [] v.k = "o" -> \E i \in 1..Len(v.v) : v.v[i][1] = PKey \/ Mentions(v.v[i][2])
                 [] OTHER -> FALSE
Places(q) == SelectSeq(q, IsPlace)
InOrder(q) == \A i \in 1..Len(Places(q)) : Places(q)[i].v[2][2].v = Nat2(i - 1)
Mark(q) == [i \in 1..Len(q) |-> IF IsPlace(q[i]) THEN [k |-> "p", v |-> <<0>>] ELSE q[i]]
RECURSIVE HasWord(_, _)
HasWord(t, i) == i + 11 <= Len(t) /\ (SubSeq(t, i, i + 11) = PKey \/ HasWord(t, i + 1))
U64 == <<49, 56, 52, 52, 54, 55, 52, 52, 48, 55, 51, 55, 48, 57, 53, 53, 49, 54, 49, 53>>
RECURSIVE LeqSeq(_, _)
LeqSeq(a, b) == a = <<>> \/ Head(a) < Head(b) \/ (Head(a) = Head(b) /\ LeqSeq(Tail(a), Tail(b)))
RECURSIVE FitsU64(_)
FitsU64(d) == IF d # <<>> /\ d[1] = 48 THEN FitsU64(Tail(d)) ELSE Len(d) < 20 \/ (Len(d) = 20 /\ LeqSeq(d, U64))
Value(d) == IF d = <<>> THEN 0 ELSE IF Len(d) > 6 THEN 999999 ELSE LET f[i \in 0..Len(d)] == IF i = 0 THEN 0 ELSE f[i - 1] * 10 + d[i] - 48 IN f[Len(d)]

List(t, i, p, bin) ==
  LET x == Whole(t, i) IN
  CASE At(t, i) # 91 -> Err
    [] ~x.ok -> IF HasWord(t, i) THEN [p EXCEPT !.r = "any"] ELSE [p EXCEPT !.r = "error"]
    [] OTHER ->
       LET q == x.v.v
           event == p.type \in {EVENT, BINEVENT}
           args == IF event /\ q # <<>> THEN Tail(q) ELSE q
           nm == IF event /\ q # <<>> /\ q[1].k = "s" THEN q[1].v ELSE <<>> IN
       CASE event /\ nm = <<>> -> [p EXCEPT !.r = "error"]
         [] bin /\ (Mentions([k |-> "l", v |-> [j \in 1..Len(args) |-> IF IsPlace(args[j]) THEN [k |-> "z", v |-> <<>>] ELSE args[j]]]) \/ ~InOrder(args)) -> [p EXCEPT !.r = "any"]
         [] ~Clear(x.v) -> [p EXCEPT !.r = "any"]
         [] bin /\ Len(Places(args)) # p.n -> [p EXCEPT !.r = "error"]
         [] OTHER -> [p EXCEPT !.r = "ok", !.name = nm, !.args = IF bin THEN Mark(args) ELSE args]
Dec(t) ==
  IF t = <<>> \/ t[1] \notin 48..54 THEN Err
  ELSE IF ~ValidUtf8(t) THEN Open
  ELSE
  LET type == t[1] - 48
      bin == type \in {BINEVENT, BINACK}
      c == Digits(t, 2)                                   \* end of the attachment count
      i1 == IF bin THEN c + 1 ELSE 2
      count == SubSeq(t, 2, c - 1)
      j == IF At(t, i1) = 47 THEN Find(t, i1, 44) ELSE i1 \* end of the namespace
      full == IF j > i1 THEN SubSeq(t, i1, j - 1) ELSE Slash
      nsp == SubSeq(full, 1, Find(full, 1, 63) - 1)
      i2 == IF j > i1 THEN j + 1 ELSE i1
      i3 == Digits(t, i2)
      id == SubSeq(t, i2, i3 - 1)
      p == [None EXCEPT !.type = type, !.nsp = nsp, !.id = id, !.n = IF bin THEN Value(count) ELSE 0] IN
  IF bin /\ At(t, c) # 45 THEN [None EXCEPT !.r = "error", !.type = type]
  ELSE IF bin /\ (count = <<>> \/ (Len(count) > 1 /\ count[1] = 48)) THEN Open
  ELSE IF Len(id) > 1 /\ id[1] = 48 /\ FitsU64(id) THEN Open
  ELSE IF ~FitsU64(id) THEN (IF type \in {CONNECT, DISCONNECT, ERROR} THEN Open ELSE Err)
  ELSE IF i3 > Len(t) THEN (IF type \in {EVENT, BINEVENT, BINACK} \/ (type = ACK /\ id # <<>>) THEN [p EXCEPT !.r = "error"]
                            ELSE IF id # <<>> THEN [p EXCEPT !.r = "any"] ELSE [p EXCEPT !.r = IF type = ACK THEN "any" ELSE "ok"])
  ELSE IF type \in {EVENT, ACK, BINEVENT, BINACK} THEN List(t, i3, p, bin)
  ELSE LET x == Whole(t, i3) IN
       IF id # <<>> THEN Open
       ELSE IF ~x.ok THEN Err ELSE IF ~Clear(x.v) THEN Open ELSE [p EXCEPT !.r = "ok", !.args = IF x.v.k = "z" THEN <<>> ELSE <<x.v>>]
=============================================================================
