----------------------------- MODULE FramingMC -----------------------------
(* Every small payload reads back as itself in every form, no part of it reads as more than its first packets, and       *)
(* damage never confuses the reader.                                                                                     *)
EXTENDS Framing
CONSTANTS MaxPackets, Damage
VARIABLES ps, bin, t, how
vars == <<ps, bin, t, how>>
Datas == {<<>>, <<0>>, <<58, 255>>, <<49, 58, 52>>, <<226, 128, 168>>, <<34, 92, 10>>, <<1, 2, 3, 4, 5, 6, 7, 8, 9>>, [i \in 1..98 |-> 97]}
Few == {<<>>, <<58, 255>>, <<0, 1, 4>>}
Packets(S) == [type : {0, 4, 6}, bin : BOOLEAN, data : S]
Init == /\ ps \in UNION {[1..n -> Packets(IF n < 2 /\ ~Damage THEN Datas ELSE Few)] : n \in 1..MaxPackets}
        /\ bin \in BOOLEAN /\ t = <<>> /\ how = "no"
Full == IF bin THEN EncBin(ps) ELSE EncText(ps)
Bytes == {0, 1, 9, 10, 48, 49, 52, 58, 61, 98, 255}
Next == how = "no" /\ UNCHANGED <<ps, bin>> /\
        IF Damage THEN how' = "damaged" /\ (\/ \E i \in 1..Len(Full), b \in Bytes : t' = [Full EXCEPT ![i] = b]
                                            \/ \E i \in 0..Len(Full) - 1 : t' = SubSeq(Full, 1, i) \o SubSeq(Full, i + 2, Len(Full)))
        ELSE \/ t' = Full /\ how' = "full"
             \/ how' = "cut" /\ \E i \in 1..Len(Full) - 1 : t' = SubSeq(Full, 1, i)
Spec == Init /\ [][Next]_vars
RoundTrip == how = "full" => Dec(bin, t) = Res("ok", ps)
Whole_ == how = "cut" => LET d == Dec(bin, t) IN d.r = "error" \/ \E i \in 1..Len(ps) - 1 : d = Res("ok", SubSeq(ps, 1, i)) /\ t = (IF bin THEN EncBin(SubSeq(ps, 1, i)) ELSE EncText(SubSeq(ps, 1, i)))
Total == how # "no" => LET d == Dec(bin, t) IN d.r \in {"ok", "error", "any"} /\ (d.r = "error" => d.ps = <<>>)
(* what is accepted is what was sent, as far as it can be told: writing the packets again gives the same bytes *)
Sane == how # "no" /\ Dec(bin, t).r = "ok" => (IF bin THEN EncBin(Dec(bin, t).ps) ELSE EncText(Dec(bin, t).ps)) = t
Script == how = "full" /\ ~bin /\ ValidUtf8(t) /\ ~Breaks(t) => UnJsonp(<<49, 50>>, Jsonp(<<49, 50>>, t)) = [ok |-> TRUE, v |-> t]
Literal == how = "full" /\ ~bin => UnJsonp(<<49>>, Jsonp(<<49, 50>>, t)).ok = FALSE
=============================================================================
