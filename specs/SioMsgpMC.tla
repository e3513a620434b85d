----------------------------- MODULE SioMsgpMC -----------------------------
(* Every small packet in every form: it reads back as itself, no part of it does, and damage never confuses the reader. *)
EXTENDS SioMsgp
CONSTANTS MaxArgs, Damage
VARIABLES p, w, null, perm, t
vars == <<p, w, null, perm, t>>
Ints == {Small(0), Small(127), UInt(<<128>>), UInt(<<255>>), UInt(<<1, 0>>), UInt(<<128, 0>>), UInt(<<1, 0, 0>>), UInt(<<128, 0, 0, 0>>), UInt(<<128, 0, 0, 0, 0, 0, 0, 0>>),
         Small(-1), Small(-32), Small(-33), Small(-128), <<1>> \o Pad8(<<129>>), <<1>> \o Pad8(<<128, 0>>), <<1>> \o Pad8(<<128, 1>>), <<1>> \o Pad8(<<128, 0, 0, 0>>), <<1, 128, 0, 0, 0, 0, 0, 0, 0>>}
Vals == {[k |-> "#", v |-> i] : i \in Ints} \cup {S(<<>>), S(<<97, 195>>), [k |-> "x", v |-> <<0, 255>>], [k |-> "t", v |-> <<>>], [k |-> "z", v |-> <<>>], [k |-> "e", v |-> Z(8)],
         [k |-> "l", v |-> <<I(1), S(<<98>>)>>], [k |-> "o", v |-> <<<<<<107>>, I(-5)>>>>], [k |-> "e", v |-> <<63, 0, 0, 0>>]}
Init == /\ p \in [type : {EVENT, ACK}, nsp : IF Damage THEN {<<47, 97>>} ELSE {Slash, <<47, 97>>}, id : IF Damage THEN {Small(7)} ELSE {<<>>, Small(7), UInt(<<255, 255, 255, 255, 255, 255, 255, 255>>)}, name : {<<101>>},
                  args : UNION {[1..n -> IF n <= 1 THEN Vals ELSE {I(0), S(<<97>>), [k |-> "z", v |-> <<>>]}] : n \in 0..MaxArgs}]
        /\ w \in {0, 2, 3} /\ null \in (IF Damage THEN {FALSE} ELSE BOOLEAN) /\ perm \in {2} /\ t = <<>>
Full == Enc(p, w, null, perm)
Bytes == {0, 129, 145, 192, 193, 203, 207, 211, 217, 220, 255}
Next == t = <<>> /\ UNCHANGED <<p, w, null, perm>> /\
        IF Damage THEN \/ \E i \in 1..Len(Full), b \in Bytes : t' = [Full EXCEPT ![i] = b]
                       \/ \E i \in 0..Len(Full) - 1 : t' = SubSeq(Full, 1, i) \o SubSeq(Full, i + 2, Len(Full))
        ELSE \/ t' = Full \/ \E i \in 1..Len(Full) - 1 : t' = SubSeq(Full, 1, i)
             \/ t' = Full \o <<0>>
Spec == Init /\ [][Next]_vars
RoundTrip == t = Full => Dec(t) = [p EXCEPT !.name = IF p.type = EVENT THEN @ ELSE <<>>] @@ [r |-> "ok"]
OnlyWhole == ~Damage /\ t # <<>> /\ t # Full => Dec(t).r = "error"
Total == LET d == Dec(t) IN d.r \in {"ok", "error", "any"} /\ (d.r = "ok" => d.type \in {EVENT, ACK})
Sane == LET d == Dec(t) IN d.r = "ok" /\ d.type = EVENT /\ (\A i \in 1..Len(d.args) : Clear2(d.args[i])) => Dec(Enc([type |-> d.type, nsp |-> d.nsp, id |-> d.id, name |-> d.name, args |-> d.args], 0, FALSE, 0)) = d
ASSUME \A v \in Ints : /\ InRange("int8", v) => InRange("int16", v) /\ InRange("int", v)
                          /\ (InRange("int64", v) \/ InRange("uint64", v))
                          /\ (v[1] = 1 => ~InRange("uint64", v))
=============================================================================
