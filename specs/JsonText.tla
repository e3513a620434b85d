------------------------------ MODULE JsonText ------------------------------
(* JSON as sequences of bytes: which texts are JSON and what value they denote.                                      *)
(* A value is [k, v]: k one of s (string, v its UTF-8 bytes), # (number, v its text), t, f, z (null), l (list, v the  *)
(* values), o (object, v the sequence of <<key, value>>).                                                             *)
EXTENDS Integers, Sequences, TLC
Bad == [ok |-> FALSE, v |-> [k |-> "z", v |-> <<>>], i |-> 0]
Ok(k, v, i) == [ok |-> TRUE, v |-> [k |-> k, v |-> v], i |-> i]
At(t, i) == IF i <= Len(t) THEN t[i] ELSE -1
Digit(c) == c \in 48..57
Hex(c) == IF c \in 48..57 THEN c - 48 ELSE IF c \in 97..102 THEN c - 87 ELSE IF c \in 65..70 THEN c - 55 ELSE -1
RECURSIVE Ws(_, _)
Ws(t, i) == IF At(t, i) \in {32, 9, 10, 13} THEN Ws(t, i + 1) ELSE i
RECURSIVE Digits(_, _)
Digits(t, i) == IF Digit(At(t, i)) THEN Digits(t, i + 1) ELSE i

Utf8(u) == CASE u < 128 -> <<u>>
             [] u < 2048 -> <<192 + u \div 64, 128 + (u % 64)>>
             [] u < 65536 -> <<224 + u \div 4096, 128 + ((u \div 64) % 64), 128 + (u % 64)>>
             [] OTHER -> <<240 + u \div 262144, 128 + ((u \div 4096) % 64), 128 + ((u \div 64) % 64), 128 + (u % 64)>>
Four(t, i) == IF \E j \in 0..3 : Hex(At(t, i + j)) < 0 THEN -1
              ELSE ((Hex(t[i]) * 16 + Hex(t[i + 1])) * 16 + Hex(t[i + 2])) * 16 + Hex(t[i + 3])
High(u) == u \in 55296..56319
Low(u) == u \in 56320..57343
(* how long the UTF-8 sequence at i is; 0 if there is none *)
Cont(t, i) == At(t, i) \in 128..191
Utf8Len(t, i) == LET c == At(t, i) IN
  CASE c \in 0..127 -> 1
    [] c \in 194..223 -> IF Cont(t, i + 1) THEN 2 ELSE 0
    [] c \in 224..239 -> IF Cont(t, i + 1) /\ Cont(t, i + 2) /\ (c = 224 => t[i + 1] >= 160) /\ (c = 237 => t[i + 1] < 160) THEN 3 ELSE 0
    [] c \in 240..244 -> IF Cont(t, i + 1) /\ Cont(t, i + 2) /\ Cont(t, i + 3) /\ (c = 240 => t[i + 1] >= 144) /\ (c = 244 => t[i + 1] < 144) THEN 4 ELSE 0
    [] OTHER -> 0
RECURSIVE ValidFrom(_, _)
Ascii(t, i, n) == i + n - 1 <= Len(t) /\ \A j \in i..i + n - 1 : t[j] < 128
ValidFrom(t, i) == IF i > Len(t) THEN TRUE ELSE IF Ascii(t, i, 200) THEN ValidFrom(t, i + 200)
                   ELSE LET n == Utf8Len(t, i) IN n > 0 /\ ValidFrom(t, i + n)
ValidUtf8(t) == ValidFrom(t, 1)

(* the inside of a string from i on *)
NoEscape(t, i, n) == i + n - 1 <= Len(t) /\ \A j \in i..i + n - 1 : t[j] >= 32 /\ t[j] # 34 /\ t[j] # 92
RECURSIVE Str(_, _, _)
Str(t, i, acc) ==
  LET c == At(t, i) IN
  CASE c = 34 -> Ok("s", acc, i + 1)
    [] c = 92 ->
       (LET d == At(t, i + 1) IN
        CASE d \in {34, 92, 47} -> Str(t, i + 2, Append(acc, d))
          [] d = 98 -> Str(t, i + 2, Append(acc, 8))
          [] d = 102 -> Str(t, i + 2, Append(acc, 12))
          [] d = 110 -> Str(t, i + 2, Append(acc, 10))
          [] d = 114 -> Str(t, i + 2, Append(acc, 13))
          [] d = 116 -> Str(t, i + 2, Append(acc, 9))
          [] d = 117 ->
             (LET u == Four(t, i + 2)
                  w == IF High(u) /\ At(t, i + 6) = 92 /\ At(t, i + 7) = 117 THEN Four(t, i + 8) ELSE -1 IN
              CASE u < 0 -> Bad
                [] High(u) /\ Low(w) -> Str(t, i + 12, acc \o Utf8(65536 + (u - 55296) * 1024 + (w - 56320)))
                [] High(u) \/ Low(u) -> Str(t, i + 6, acc \o Utf8(65533))
                [] OTHER -> Str(t, i + 6, acc \o Utf8(u)))
          [] OTHER -> Bad)
    [] c < 32 -> Bad
    [] NoEscape(t, i, 500) -> Str(t, i + 500, acc \o SubSeq(t, i, i + 499))
    [] OTHER -> Str(t, i + 1, Append(acc, c))

Number(t, i) ==
  LET a == IF At(t, i) = 45 THEN i + 1 ELSE i
      b == IF At(t, a) = 48 THEN a + 1 ELSE Digits(t, a)
      c == IF At(t, b) = 46 THEN (IF Digit(At(t, b + 1)) THEN Digits(t, b + 1) ELSE 0) ELSE b
      d == IF c > 0 /\ At(t, c) \in {69, 101}
           THEN (LET e == IF At(t, c + 1) \in {43, 45} THEN c + 2 ELSE c + 1 IN IF Digit(At(t, e)) THEN Digits(t, e) ELSE 0) ELSE c IN
  IF b = a \/ d = 0 THEN Bad ELSE Ok("#", SubSeq(t, i, d - 1), d)
Word(t, i, w, k) == IF i + Len(w) - 1 <= Len(t) /\ SubSeq(t, i, i + Len(w) - 1) = w THEN Ok(k, <<>>, i + Len(w)) ELSE Bad

RECURSIVE Val(_, _), Elems(_, _, _), Members(_, _, _)
Val(t, j) ==
  LET i == Ws(t, j)
      c == At(t, i) IN
  CASE c = 34 -> Str(t, i + 1, <<>>)
    [] c = 91 -> IF At(t, Ws(t, i + 1)) = 93 THEN Ok("l", <<>>, Ws(t, i + 1) + 1) ELSE Elems(t, i + 1, <<>>)
    [] c = 123 -> IF At(t, Ws(t, i + 1)) = 125 THEN Ok("o", <<>>, Ws(t, i + 1) + 1) ELSE Members(t, i + 1, <<>>)
    [] c = 116 -> Word(t, i, <<116, 114, 117, 101>>, "t")
    [] c = 102 -> Word(t, i, <<102, 97, 108, 115, 101>>, "f")
    [] c = 110 -> Word(t, i, <<110, 117, 108, 108>>, "z")
    [] c = 45 \/ Digit(c) -> Number(t, i)
    [] OTHER -> Bad
Elems(t, i, acc) ==
  LET x == Val(t, i) IN
  IF ~x.ok THEN Bad ELSE
  LET j == Ws(t, x.i) IN
  CASE At(t, j) = 44 -> Elems(t, j + 1, Append(acc, x.v))
    [] At(t, j) = 93 -> Ok("l", Append(acc, x.v), j + 1)
    [] OTHER -> Bad
Members(t, i, acc) ==
  LET a == Ws(t, i)
      n == IF At(t, a) = 34 THEN Str(t, a + 1, <<>>) ELSE Bad
      b == IF n.ok THEN Ws(t, n.i) ELSE 0
      x == IF b > 0 /\ At(t, b) = 58 THEN Val(t, b + 1) ELSE Bad IN
  IF ~n.ok \/ ~x.ok THEN Bad ELSE
  LET j == Ws(t, x.i) IN
  CASE At(t, j) = 44 -> Members(t, j + 1, Append(acc, <<n.v.v, x.v>>))
    [] At(t, j) = 125 -> Ok("o", Append(acc, <<n.v.v, x.v>>), j + 1)
    [] OTHER -> Bad
(* the whole text from i on is one value *)
Whole(t, i) == LET x == Val(t, i) IN IF x.ok /\ Ws(t, x.i) = Len(t) + 1 THEN x ELSE Bad

(* numbers written in the one way both sides write them: integers of up to 15 digits, or with a fraction that does not end in 0 *)
Plain(n) == LET a == IF n[1] = 45 THEN 2 ELSE 1
                b == Digits(n, a) IN
            /\ n # <<45, 48>> /\ Len(n) <= 15
            /\ \/ b = Len(n) + 1
               \/ n[b] = 46 /\ Digits(n, b + 1) = Len(n) + 1 /\ n[Len(n)] # 48 /\ (n[a] # 48 \/ n[b + 1] # 48)
RECURSIVE Clear(_)   \* nothing in the value is read differently by different readers
Clear(v) == CASE v.k = "#" -> Plain(v.v)
              [] v.k = "l" -> \A i \in 1..Len(v.v) : Clear(v.v[i])
              [] v.k = "o" -> \A i \in 1..Len(v.v) : Clear(v.v[i][2]) /\ \A j \in 1..i-1 : v.v[i][1] # v.v[j][1]
              [] OTHER -> TRUE
RECURSIVE Eq(_, _)
Eq(a, b) == /\ a.k = b.k
            /\ CASE a.k = "l" -> Len(a.v) = Len(b.v) /\ \A i \in 1..Len(a.v) : Eq(a.v[i], b.v[i])
                 [] a.k = "o" -> Len(a.v) = Len(b.v) /\ \A i \in 1..Len(a.v) : \E j \in 1..Len(b.v) : a.v[i][1] = b.v[j][1] /\ Eq(a.v[i][2], b.v[j][2])
                 [] OTHER -> a.v = b.v

(* one way of writing a value *)
RECURSIVE Esc(_), Write(_), WriteAll(_, _), WriteMembers(_, _)
Esc(s) == IF s = <<>> THEN <<>> ELSE
          (CASE Head(s) \in {34, 92} -> <<92, Head(s)>>
             [] Head(s) < 32 -> <<92, 117, 48, 48, 48 + Head(s) \div 16, IF Head(s) % 16 < 10 THEN 48 + (Head(s) % 16) ELSE 87 + (Head(s) % 16)>>
             [] OTHER -> <<Head(s)>>) \o Esc(Tail(s))
Write(v) == CASE v.k = "s" -> <<34>> \o Esc(v.v) \o <<34>>
              [] v.k = "#" -> v.v
              [] v.k = "t" -> <<116, 114, 117, 101>>
              [] v.k = "f" -> <<102, 97, 108, 115, 101>>
              [] v.k = "z" -> <<110, 117, 108, 108>>
              [] v.k = "l" -> <<91>> \o WriteAll(v.v, <<44>>) \o <<93>>
              [] OTHER -> <<123>> \o WriteMembers(v.v, <<44>>) \o <<125>>
WriteAll(q, sep) == IF q = <<>> THEN <<>> ELSE IF Len(q) = 1 THEN Write(q[1]) ELSE Write(q[1]) \o sep \o WriteAll(Tail(q), sep)
WriteMembers(q, sep) == IF q = <<>> THEN <<>> ELSE
  <<34>> \o Esc(q[1][1]) \o <<34, 58>> \o Write(q[1][2]) \o (IF Len(q) = 1 THEN <<>> ELSE sep \o WriteMembers(Tail(q), sep))
=============================================================================
