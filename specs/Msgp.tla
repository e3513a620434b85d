------------------------------- MODULE Msgp -------------------------------
(* MessagePack over byte sequences. Values are those of JsonText, with "#" an integer [sign, 8 bytes of magnitude],       *)
(* "e" a float (its 4 or 8 bytes), "x" binary data and "?" what only some readers read (extensions, maps with other keys). *)
EXTENDS JsonText
Z(n) == [i \in 1..n |-> 0]
Pad8(b) == Z(8 - Len(b)) \o b
RECURSIVE Incr(_)
Incr(b) == IF b = <<>> THEN <<>> ELSE LET n == Len(b) IN IF b[n] = 255 THEN Append(Incr(SubSeq(b, 1, n - 1)), 0) ELSE [b EXCEPT ![n] = @ + 1]
Negate(b) == Incr([i \in 1..Len(b) |-> 255 - b[i]])
UInt(b) == <<0>> \o Pad8(b)
SInt(b) == IF b[1] < 128 THEN UInt(b) ELSE <<1>> \o Pad8(Negate(b))
Small(n) == IF n >= 0 THEN UInt(<<n>>) ELSE <<1>> \o Pad8(<<-n>>)
Has(t, i, n) == i + n - 1 <= Len(t)
Sub(t, i, n) == SubSeq(t, i, i + n - 1)
(* a length of n bytes; more than any text here has if it is large *)
RECURSIVE BE(_, _)
BE(b, acc) == IF b = <<>> THEN acc ELSE IF acc > 99999 THEN 99999999 ELSE BE(Tail(b), acc * 256 + Head(b))
Chunk(k, t, i, n) == IF Has(t, i, n) THEN Ok(k, Sub(t, i, n), i + n) ELSE Bad
RECURSIVE Mp(_, _), MpItems(_, _, _, _), MpPairs(_, _, _, _)
Mp(t, i) ==
  LET c == At(t, i)
      n(w) == IF Has(t, i + 1, w) THEN BE(Sub(t, i + 1, w), 0) ELSE 99999999 IN
  CASE c < 0 -> Bad
    [] c < 128 -> Ok("#", Small(c), i + 1)
    [] c < 144 -> MpPairs(t, i + 1, c - 128, <<>>)
    [] c < 160 -> MpItems(t, i + 1, c - 144, <<>>)
    [] c < 192 -> Chunk("s", t, i + 1, c - 160)
    [] c = 192 -> Ok("z", <<>>, i + 1)
    [] c = 193 -> Bad
    [] c = 194 -> Ok("f", <<>>, i + 1)
    [] c = 195 -> Ok("t", <<>>, i + 1)
    [] c = 196 -> Chunk("x", t, i + 2, n(1)) [] c = 197 -> Chunk("x", t, i + 3, n(2)) [] c = 198 -> Chunk("x", t, i + 5, n(4))
    [] c = 199 -> Chunk("?", t, i + 3, n(1)) [] c = 200 -> Chunk("?", t, i + 4, n(2)) [] c = 201 -> Chunk("?", t, i + 6, n(4))
    [] c = 202 -> Chunk("e", t, i + 1, 4) [] c = 203 -> Chunk("e", t, i + 1, 8)
    [] c \in 204..207 -> (LET w == <<1, 2, 4, 8>>[c - 203] IN IF Has(t, i + 1, w) THEN Ok("#", UInt(Sub(t, i + 1, w)), i + 1 + w) ELSE Bad)
    [] c \in 208..211 -> (LET w == <<1, 2, 4, 8>>[c - 207] IN IF Has(t, i + 1, w) THEN Ok("#", SInt(Sub(t, i + 1, w)), i + 1 + w) ELSE Bad)
    [] c \in 212..216 -> Chunk("?", t, i + 2, <<1, 2, 4, 8, 16>>[c - 211])
    [] c = 217 -> Chunk("s", t, i + 2, n(1)) [] c = 218 -> Chunk("s", t, i + 3, n(2)) [] c = 219 -> Chunk("s", t, i + 5, n(4))
    [] c = 220 -> MpItems(t, i + 3, n(2), <<>>) [] c = 221 -> MpItems(t, i + 5, n(4), <<>>)
    [] c = 222 -> MpPairs(t, i + 3, n(2), <<>>) [] c = 223 -> MpPairs(t, i + 5, n(4), <<>>)
    [] OTHER -> Ok("#", Small(c - 256), i + 1)
MpItems(t, i, n, acc) == IF n = 0 THEN Ok("l", acc, i) ELSE IF n > Len(t) THEN Bad ELSE
                         LET x == Mp(t, i) IN IF ~x.ok THEN Bad ELSE MpItems(t, x.i, n - 1, Append(acc, x.v))
MpPairs(t, i, n, acc) == IF n = 0 THEN (IF \A j \in 1..Len(acc) : acc[j][1].k = "s" THEN Ok("o", [j \in 1..Len(acc) |-> <<acc[j][1].v, acc[j][2]>>], i) ELSE Ok("?", <<>>, i))
                         ELSE IF n > Len(t) THEN Bad ELSE
                         LET k == Mp(t, i)
                             x == IF k.ok THEN Mp(t, k.i) ELSE Bad IN IF ~x.ok THEN Bad ELSE MpPairs(t, x.i, n - 1, Append(acc, <<k.v, x.v>>))
(* nothing in it is read differently by different readers *)
RECURSIVE Clear2(_)
Clear2(v) == CASE v.k = "?" -> FALSE
               [] v.k = "l" -> \A i \in 1..Len(v.v) : Clear2(v.v[i])
               [] v.k = "o" -> \A i \in 1..Len(v.v) : Clear2(v.v[i][2]) /\ \A j \in 1..i-1 : v.v[i][1] # v.v[j][1]
               [] OTHER -> TRUE

(* one way of writing, w choosing among the forms: 0 the shortest *)
Len16(n) == <<n \div 256, n % 256>>
Len32(n) == <<0, 0, n \div 256, n % 256>>
Form(n, w, fix, max, h8, h16, h32) == CASE w = 0 /\ n <= max -> <<fix + n>>
                                         [] w <= 1 /\ h8 > 0 /\ n < 256 -> <<h8, n>>
                                         [] w <= 2 -> <<h16>> \o Len16(n)
                                         [] OTHER -> <<h32>> \o Len32(n)
RECURSIVE Low0(_)
Low0(b) == IF b = <<>> \/ Head(b) > 0 THEN b ELSE Low0(Tail(b))
WInt(v, w) ==
  LET b == Low0(Tail(v))
      s == IF Len(b) <= 1 THEN 1 ELSE IF Len(b) = 2 THEN 2 ELSE IF Len(b) <= 4 THEN 3 ELSE 4   \* width that holds the magnitude
      to(n) == Z(n - Len(b)) \o b
      half == b # <<>> /\ Len(b) = <<1, 2, 4, 8>>[s] /\ b[1] >= 128 IN                           \* the sign does not fit besides
  IF v[1] = 0 THEN
    (IF w = 0 /\ s = 1 /\ ~half THEN to(1)
     ELSE IF w = 2 /\ ~(half /\ s = 4) THEN (LET s2 == IF half THEN s + 1 ELSE s IN <<207 + s2>> \o to(<<1, 2, 4, 8>>[s2]))
     ELSE (LET s2 == IF w = 3 THEN 4 ELSE s IN <<203 + s2>> \o to(<<1, 2, 4, 8>>[s2])))
  ELSE
    LET s2 == IF w = 3 THEN 4 ELSE IF half /\ ~(Tail(b) = Z(Len(b) - 1) /\ b[1] = 128) THEN s + 1 ELSE s IN
    IF w = 0 /\ s = 1 /\ b[1] <= 32 THEN <<256 - b[1]>> ELSE <<207 + s2>> \o Negate(to(<<1, 2, 4, 8>>[s2]))
RECURSIVE Pack(_, _), PackAll(_, _), PackPairs(_, _)
Pack(v, w) == CASE v.k = "#" -> WInt(v.v, w)
                [] v.k = "s" -> Form(Len(v.v), w, 160, 31, 217, 218, 219) \o v.v
                [] v.k = "x" -> Form(Len(v.v), w, 0, -1, 196, 197, 198) \o v.v
                [] v.k = "e" -> <<IF Len(v.v) = 4 THEN 202 ELSE 203>> \o v.v
                [] v.k = "t" -> <<195>> [] v.k = "f" -> <<194>> [] v.k = "z" -> <<192>>
                [] v.k = "?" -> <<213, 9>> \o v.v
                [] v.k = "l" -> Form(Len(v.v), w, 144, 15, 0, 220, 221) \o PackAll(v.v, w)
                [] OTHER -> Form(Len(v.v), w, 128, 15, 0, 222, 223) \o PackPairs(v.v, w)
PackAll(q, w) == IF q = <<>> THEN <<>> ELSE Pack(Head(q), w) \o PackAll(Tail(q), w)
PackPairs(q, w) == IF q = <<>> THEN <<>> ELSE Pack([k |-> "s", v |-> q[1][1]], w) \o Pack(q[1][2], w) \o PackPairs(Tail(q), w)

(* ranges of integers *)
RECURSIVE Leq(_, _)
Leq(a, b) == a = <<>> \/ Head(a) < Head(b) \/ (Head(a) = Head(b) /\ Leq(Tail(a), Tail(b)))
Bits == [int |-> 8, int8 |-> 1, int16 |-> 2, int32 |-> 4, int64 |-> 8, dur |-> 8, uint |-> 8, uint8 |-> 1, uint16 |-> 2, uint32 |-> 4, uint64 |-> 8]
Signed == {"int", "int8", "int16", "int32", "int64", "dur"}
InRange(kind, v) == LET n == Bits[kind] IN
  IF kind \notin Signed THEN v[1] = 0 /\ Leq(Tail(v), Pad8([i \in 1..n |-> 255]))
  ELSE IF v[1] = 0 THEN Leq(Tail(v), Pad8(<<127>> \o [i \in 1..n-1 |-> 255])) ELSE Leq(Tail(v), Pad8(<<128>> \o Z(n - 1)))
(* can a parameter of the kind take the value? *)
Worst(S) == IF "no" \in S THEN "no" ELSE IF "any" \in S THEN "any" ELSE "yes"
RECURSIVE Fit(_, _)
Fit(kind, v) ==
  LET each(k2) == Worst({"yes"} \cup {Fit(k2, v.v[i]) : i \in 1..Len(v.v)}) IN
  CASE kind = "iface" -> IF Clear2(v) THEN "yes" ELSE "any"
    [] v.k \in {"z", "?"} -> "any"
    [] kind \in {"str", "pstr"} -> IF v.k = "s" THEN "yes" ELSE "no"
    [] kind = "bool" -> IF v.k \in {"t", "f"} THEN "yes" ELSE "no"
    [] kind = "bin" -> IF v.k = "x" THEN "yes" ELSE IF v.k = "s" THEN "any" ELSE "no"
    [] kind \in DOMAIN Bits -> IF v.k = "#" THEN (IF InRange(kind, v.v) THEN "yes" ELSE "no") ELSE IF v.k = "e" THEN "any" ELSE "no"
    [] kind = "f64" -> IF v.k = "e" THEN (IF Len(v.v) = 8 THEN "yes" ELSE "any") ELSE IF v.k = "#" THEN "any" ELSE "no"
    [] kind = "f32" -> IF v.k = "e" THEN (IF Len(v.v) = 4 THEN "yes" ELSE "any") ELSE IF v.k = "#" THEN "any" ELSE "no"
    [] kind = "list" -> IF v.k = "l" THEN each("iface") ELSE "no"
    [] kind = "strs" -> IF v.k = "l" THEN each("str") ELSE "no"
    [] kind = "nest" -> IF v.k = "l" THEN each("strs") ELSE "no"
    [] kind = "pair" -> IF v.k # "l" THEN "no" ELSE IF Len(v.v) = 2 THEN each("int") ELSE IF Len(v.v) < 2 THEN "any" ELSE "no"
    [] kind = "map" -> IF v.k = "o" THEN (IF Clear2(v) THEN "yes" ELSE "any") ELSE "no"
    [] kind \in {"mapint", "mapnam"} -> IF v.k = "o" THEN Worst({IF Clear2(v) THEN "yes" ELSE "any"} \cup {Fit("int", v.v[i][2]) : i \in 1..Len(v.v)}) ELSE "no"
    [] OTHER -> "any"
Fits(kinds, args) == IF Len(args) < Len(kinds) THEN "no" ELSE Worst({"yes"} \cup {Fit(kinds[i], args[i]) : i \in 1..Len(kinds)})
=============================================================================
