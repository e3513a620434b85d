------------------------------ MODULE Framing ------------------------------
(* Payloads of engine.io packets as polling transports carry them. A packet is [type, bin, data]: bin whether it is      *)
(* binary, data its bytes. Dec results: r = "ok" with the packets ps, "error", or "any" where readers may differ.        *)
EXTENDS JsonText
Dig(n) == LET RECURSIVE f(_) f(m) == IF m < 10 THEN <<m>> ELSE Append(f(m \div 10), m % 10) IN f(n)
Alpha == [i \in 0..63 |-> IF i < 26 THEN 65 + i ELSE IF i < 52 THEN 71 + i ELSE IF i < 62 THEN i - 4 ELSE IF i = 62 THEN 43 ELSE 47]
Sextet(c) == IF c \in 65..90 THEN c - 65 ELSE IF c \in 97..122 THEN c - 71 ELSE IF c \in 48..57 THEN c + 4 ELSE IF c = 43 THEN 62 ELSE IF c = 47 THEN 63 ELSE -1
B64(b) == LET n == Len(b)
              Oct(i) == IF i <= n THEN b[i] ELSE 0
              Ch(i) == LET g == 3 * ((i - 1) \div 4)
                           k == (i - 1) % 4 IN
                       CASE k = 0 -> Alpha[Oct(g + 1) \div 4]
                         [] k = 1 -> Alpha[(Oct(g + 1) % 4) * 16 + Oct(g + 2) \div 16]
                         [] k = 2 -> IF g + 2 > n THEN 61 ELSE Alpha[(Oct(g + 2) % 16) * 4 + Oct(g + 3) \div 64]
                         [] OTHER -> IF g + 3 > n THEN 61 ELSE Alpha[Oct(g + 3) % 64] IN
          [i \in 1..4 * ((n + 2) \div 3) |-> Ch(i)]
UnB64(t) == LET n == Len(t)
                pad == IF n = 0 \/ t[n] # 61 THEN 0 ELSE IF t[n - 1] # 61 THEN 1 ELSE 2
                s(i) == Sextet(t[i])
                By(i) == LET g == 4 * ((i - 1) \div 3)
                             k == (i - 1) % 3 IN
                         CASE k = 0 -> s(g + 1) * 4 + s(g + 2) \div 16
                           [] k = 1 -> (s(g + 2) % 16) * 16 + s(g + 3) \div 4
                           [] OTHER -> (s(g + 3) % 4) * 64 + s(g + 4) IN
            [i \in 1..3 * (n \div 4) - pad |-> By(i)]
(* "ok", "error", or "any": stray line breaks and bits after the end are read by some and refused by others *)
B64Form(t) == LET n == Len(t)
                  pad == IF n > 0 /\ t[n] = 61 THEN (IF n > 1 /\ t[n - 1] = 61 THEN 2 ELSE 1) ELSE 0 IN
  IF \E i \in 1..n : t[i] \in {10, 13} THEN "any"
  ELSE IF (n % 4) # 0 \/ \E i \in 1..(n - pad) : Sextet(t[i]) < 0 THEN "error"
  ELSE IF (pad = 2 /\ (Sextet(t[n - 2]) % 16) # 0) \/ (pad = 1 /\ (Sextet(t[n - 1]) % 4) # 0) THEN "any" ELSE "ok"
(* writing *)
Digits10(n) == [i \in 1..Len(Dig(n)) |-> 48 + Dig(n)[i]]
TextOf(p) == LET body == IF p.bin THEN <<98, 48 + p.type>> \o B64(p.data) ELSE <<48 + p.type>> \o p.data IN Digits10(Len(body)) \o <<58>> \o body
BinOf(p) == <<IF p.bin THEN 1 ELSE 0>> \o Dig(Len(p.data) + 1) \o <<255, IF p.bin THEN p.type ELSE 48 + p.type>> \o p.data
RECURSIVE EncText(_), EncBin(_)
EncText(ps) == IF ps = <<>> THEN <<>> ELSE TextOf(Head(ps)) \o EncText(Tail(ps))
EncBin(ps) == IF ps = <<>> THEN <<>> ELSE BinOf(Head(ps)) \o EncBin(Tail(ps))
(* reading *)
Res(r, ps) == [r |-> r, ps |-> ps]
Worse(r, s) == IF "error" \in {r, s} THEN "error" ELSE IF "any" \in {r, s} THEN "any" ELSE "ok"
Huge == 9999999
Val10(d) == IF Len(d) > 6 THEN (IF \A i \in 1..Len(d) - 6 : d[i] = 0 THEN 0 ELSE Huge) ELSE LET f[i \in 0..Len(d)] == IF i = 0 THEN 0 ELSE f[i - 1] * 10 + d[i] IN f[Len(d)]
RECURSIVE DecText(_, _, _, _), DecBin(_, _, _, _)
DecText(t, i, r, acc) ==
  IF i > Len(t) THEN Res(r, acc) ELSE
  LET c == Digits(t, i)
      d == [j \in 1..c - i |-> t[i + j - 1] - 48]
      n == Val10(d)
      body == SubSeq(t, c + 1, c + n)
      b == n > 0 /\ body[1] = 98 IN
  CASE c > Len(t) \/ t[c] # 58 \/ d = <<>> -> Res("error", <<>>)
    [] Len(d) > 6 -> Res(IF n = Huge THEN "error" ELSE "any", <<>>)
    [] n = 0 \/ c + n > Len(t) -> Res("error", <<>>)
    [] b /\ n < 2 -> Res("error", <<>>)
    [] OTHER ->
       LET rest == SubSeq(body, 3, n)
           f == IF b THEN B64Form(rest) ELSE "ok"
           ty == (IF b THEN body[2] ELSE body[1]) - 48
           odd == IF ty \notin 0..6 \/ (d[1] = 0 /\ Len(d) > 1) THEN "any" ELSE "ok"
           p == [type |-> ty, bin |-> b, data |-> IF ~b THEN Tail(body) ELSE IF f = "ok" THEN UnB64(rest) ELSE <<>>] IN
       IF f = "error" THEN Res("error", <<>>) ELSE DecText(t, c + n + 1, Worse(r, Worse(f, odd)), Append(acc, p))
RECURSIVE Until255(_, _)
Until255(t, i) == IF At(t, i) \in 0..9 THEN Until255(t, i + 1) ELSE i
DecBin(t, i, r, acc) ==
  IF i > Len(t) THEN Res(r, acc) ELSE
  LET c == Until255(t, i + 1)
      d == SubSeq(t, i + 1, c - 1)
      n == Val10(d) IN
  CASE t[i] > 1 \/ c > Len(t) \/ t[c] # 255 \/ d = <<>> -> Res("error", <<>>)
    [] Len(d) > 6 -> Res(IF n = Huge THEN "error" ELSE "any", <<>>)
    [] n = 0 \/ c + n > Len(t) -> Res("error", <<>>)
    [] OTHER ->
       LET b == t[i] = 1
           ty == t[c + 1] - (IF b THEN 0 ELSE 48)
           odd == IF ty \notin 0..6 \/ (d[1] = 0 /\ Len(d) > 1) THEN "any" ELSE "ok" IN
       DecBin(t, c + n + 1, Worse(r, odd), Append(acc, [type |-> ty, bin |-> b, data |-> SubSeq(t, c + 2, c + n)]))
Dec(bin, t) == IF t = <<>> THEN Res("any", <<>>) ELSE IF bin THEN DecBin(t, 1, "ok", <<>>) ELSE DecText(t, 1, "ok", <<>>)

(* a script that passes a text to the callback with the number: ___eio[n]("..."); *)
Eio == <<95, 95, 95, 101, 105, 111, 91>>
Jsonp(index, t) == Eio \o index \o <<93, 40>> \o Write([k |-> "s", v |-> t]) \o <<41, 59>>
Breaks(t) == \E i \in 1..Len(t) - 2 : t[i] = 226 /\ t[i + 1] = 128 /\ t[i + 2] \in {168, 169}
UnJsonp(index, t) ==
  LET pre == Eio \o index \o <<93, 40, 34>>
      x == IF Len(t) > Len(pre) /\ SubSeq(t, 1, Len(pre)) = pre THEN Str(t, Len(pre) + 1, <<>>) ELSE Bad
      end == IF x.ok THEN SubSeq(t, x.i, Len(t)) ELSE <<>> IN
  [ok |-> x.ok /\ end \in {<<41>>, <<41, 59>>, <<41, 59, 10>>} /\ ValidUtf8(t) /\ ~Breaks(t), v |-> x.v.v]
Index(j) == j # <<>> /\ \A i \in 1..Len(j) : Digit(j[i])
(* what a poll in a mode is answered with: mode is "bin", "b64" or the index of a callback *)
DecAnswer(mode, j, t) == IF mode = "bin" THEN Dec(TRUE, t) ELSE IF mode = "b64" THEN Dec(FALSE, t)
                         ELSE LET x == UnJsonp(j, t) IN IF x.ok THEN Dec(FALSE, x.v) ELSE Res("error", <<>>)
=============================================================================
