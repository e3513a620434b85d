------------------------------ MODULE SioMsgp ------------------------------
(* Packets of the msgpack parser: events and acknowledgements are one binary frame holding a map, the others one text    *)
(* frame holding a JSON object. A packet is [type, nsp, id, name, args] with id <<>> or an integer.                       *)
EXTENDS Msgp
CONNECT == 0  DISCONNECT == 1  EVENT == 2  ACK == 3  ERROR == 4
Slash == <<47>>
S(b) == [k |-> "s", v |-> b]
I(n) == [k |-> "#", v |-> Small(n)]
KType == <<116, 121, 112, 101>>  KNsp == <<110, 115, 112>>  KData == <<100, 97, 116, 97>>  KId == <<105, 100>>
Keys == {KType, KNsp, KData, KId}
Num(v) == v.v[Len(v.v)]                         \* of a small integer
Fields(p, null) == <<<<KType, I(p.type)>>, <<KNsp, S(p.nsp)>>,
                     <<KData, [k |-> "l", v |-> (IF p.type = EVENT THEN <<S(p.name)>> ELSE <<>>) \o p.args]>>>>
                   \o (IF p.id # <<>> THEN <<<<KId, [k |-> "#", v |-> p.id]>>>> ELSE IF null THEN <<<<KId, [k |-> "z", v |-> <<>>]>>>> ELSE <<>>)
Enc(p, w, null, perm) == LET f == Fields(p, null) IN Pack([k |-> "o", v |-> [i \in 1..Len(f) |-> f[((i + perm) % Len(f)) + 1]]], w)
EncText(p) == Write([k |-> "o", v |-> <<<<KType, [k |-> "#", v |-> <<48 + p.type>>]>>, <<KNsp, S(p.nsp)>>>>
                                      \o (IF p.args # <<>> THEN <<<<KData, p.args[1]>>>> ELSE <<>>)])

None == [r |-> "error", type |-> 0, nsp |-> Slash, id |-> <<>>, name |-> <<>>, args |-> <<>>]
Open == [None EXCEPT !.r = "any"]
Field(m, key) == LET q == SelectSeq(m, LAMBDA f : f[1] = key) IN IF q = <<>> THEN [k |-> "none", v |-> <<>>] ELSE q[1][2]
Nsp(v) == IF v.v = <<>> THEN Slash ELSE v.v
Dec(t) ==
  LET x == Mp(t, 1) IN
  IF ~x.ok \/ x.i <= Len(t) THEN None
  ELSE IF x.v.k = "?" THEN Open
  ELSE IF x.v.k # "o" THEN None
  ELSE
  LET m == x.v.v
      ty == Field(m, KType)
      ns == Field(m, KNsp)
      id == Field(m, KId)
      da == Field(m, KData)
      p == [None EXCEPT !.type = Num(ty), !.nsp = Nsp(ns), !.id = IF id.k = "#" THEN id.v ELSE <<>>]
      q == IF da.k = "l" THEN da.v ELSE <<>> IN
  CASE \E i, j \in 1..Len(m) : i < j /\ m[i][1] = m[j][1] -> Open
    [] ty.k \in {"?", "e"} \/ ns.k \in {"?", "none", "x", "z"} \/ id.k \in {"?", "e"} \/ ns.v = <<>> -> Open
    [] ty.k # "#" -> None
    [] ty.v[1] = 1 \/ Low0(Tail(ty.v)) # Low0(<<Num(ty)>>) \/ Num(ty) > 6 -> None
    [] ns.k # "s" -> None
    [] id.k \notin {"none", "z", "#"} \/ (id.k = "#" /\ id.v[1] = 1) -> None
    [] p.type \notin {EVENT, ACK} -> [p EXCEPT !.r = "any"]
    [] da.k = "?" -> [p EXCEPT !.r = "any"]
    [] da.k # "l" -> [p EXCEPT !.r = "error"]
    [] p.type = ACK -> [p EXCEPT !.r = "ok", !.args = q]
    [] q = <<>> -> [p EXCEPT !.r = "error"]
    [] q[1].k = "?" \/ q[1] = S(<<>>) -> [p EXCEPT !.r = "any"]
    [] q[1].k # "s" -> [p EXCEPT !.r = "error"]
    [] OTHER -> [p EXCEPT !.r = "ok", !.name = q[1].v, !.args = Tail(q)]
RECURSIVE Lower(_)
Lower(b) == [i \in 1..Len(b) |-> IF b[i] \in 65..90 THEN b[i] + 32 ELSE b[i]]
DecText(t) ==
  IF ~ValidUtf8(t) THEN Open ELSE
  LET x == Whole(t, 1) IN
  IF ~x.ok THEN None ELSE IF x.v.k = "z" THEN Open ELSE IF x.v.k # "o" THEN None ELSE
  LET m == x.v.v
      ty == Field(m, KType)
      ns == Field(m, KNsp)
      id == Field(m, KId)
      da == Field(m, KData)
      p == [None EXCEPT !.type = ty.v[1] - 48, !.nsp = Nsp(ns)] IN
  CASE ~Clear(x.v) \/ \E i \in 1..Len(m) : m[i][1] \notin Keys -> Open
    [] ty.k \in {"z", "none"} -> None
    [] ty.k # "#" \/ Len(ty.v) # 1 -> None
    [] ty.v[1] \notin 48..54 -> None
    [] ns.k \in {"none", "z"} \/ ns.v = <<>> -> Open
    [] ns.k # "s" -> None
    [] id.k # "none" -> Open
    [] p.type \in {EVENT, ACK} -> [p EXCEPT !.r = "error"]
    [] p.type > ERROR -> [p EXCEPT !.r = "any"]
    [] OTHER -> [p EXCEPT !.r = "ok", !.args = IF da.k \in {"none", "z"} THEN <<>> ELSE <<da>>]
=============================================================================
