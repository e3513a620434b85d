----------------------------- MODULE SioTextMC -----------------------------
(* Every packet of a domain, written and read again; every way of damaging its text in one place. *)
EXTENDS SioText, FiniteSets
CONSTANTS MaxArgs, Damage
VARIABLES p, t, ph
S(b) == [k |-> "s", v |-> b]
V == {S(<<>>), S(<<34, 44, 123>>), S(<<195, 169, 92>>), [k |-> "#", v |-> <<45, 49>>], [k |-> "z", v |-> <<>>],
      [k |-> "l", v |-> <<S(<<97>>), [k |-> "t", v |-> <<>>]>>], [k |-> "o", v |-> <<<<<<107>>, [k |-> "l", v |-> <<>>]>>>>]}
Args == UNION {[1..n -> V \cup {[k |-> "p", v |-> <<0>>]}] : n \in 0..MaxArgs}
Num(args) == [i \in 1..Len(args) |-> IF IsP(args[i]) THEN [k |-> "p", v |-> <<Count(SubSeq(args, 1, i - 1))>>] ELSE args[i]]
Clean(args) == [i \in 1..Len(args) |-> IF IsP(args[i]) THEN [k |-> "p", v |-> <<0>>] ELSE args[i]]
Nsps == {Slash, <<47, 97>>, <<47, 99, 32, 63>>}
Ids == {<<>>, <<48>>, U64}
Names == {<<101>>, <<34, 44, 93>>}
Packets == {[r |-> "ok", type |-> ty, nsp |-> ns, id |-> id, name |-> IF ty \in {EVENT, BINEVENT} THEN nm ELSE <<>>, args |-> a, n |-> Count(a)] :
            ty \in {EVENT, ACK, BINEVENT, BINACK}, ns \in Nsps, id \in Ids, nm \in Names, a \in Args}
Fitting == {q \in Packets : q.type \in {BINEVENT, BINACK} \/ Count(q.args) = 0}
Others == {[r |-> "ok", type |-> ty, nsp |-> ns, id |-> <<>>, name |-> <<>>, args |-> a, n |-> 0] : ty \in {CONNECT, DISCONNECT, ERROR}, ns \in Nsps,
           a \in {<<>>} \cup {<<v>> : v \in {x \in V : x.k \notin {"#", "z"}}}}
Init == p \in Fitting \cup Others /\ t = Enc([p EXCEPT !.args = Num(p.args)], <<>>) /\ ph = "whole"
Cut(i) == SubSeq(t, 1, i - 1) \o SubSeq(t, i + 1, Len(t))
Put(i, c) == SubSeq(t, 1, i - 1) \o <<c>> \o SubSeq(t, i + 1, Len(t))
Next == /\ ph = "whole" /\ Damage /\ UNCHANGED p
        /\ \/ \E i \in 1..Len(t) : t' = Cut(i) /\ ph' = "cut"
           \/ \E i \in 0..Len(t) - 1 : t' = SubSeq(t, 1, i) /\ ph' = "short"
           \/ \E i \in 1..Len(t), c \in {34, 44, 48, 57, 91, 93, 123, 92} : t' = Put(i, c) /\ ph' = "put"
Spec == Init /\ [][Next]_<<p, t, ph>>
Unquery(ns) == SubSeq(ns, 1, Find(ns, 1, 63) - 1)
RoundTrip == ph = "whole" => LET d == Dec(t) IN
   /\ d.r = "ok" /\ d.type = p.type /\ d.nsp = Unquery(p.nsp) /\ d.id = p.id /\ d.name = p.name /\ d.n = p.n
   /\ Len(d.args) = Len(p.args) /\ \A i \in 1..Len(p.args) : Eq(d.args[i], p.args[i])
(* a list that does not end is never taken for a packet *)
Unfinished == (ph = "short" /\ p.type \in {EVENT, ACK, BINEVENT, BINACK}) => Dec(t).r # "ok"
Total == Dec(t).r \in {"ok", "error", "any"}
(* what a damaged text is taken for is a packet that can be written *)
Sane == LET d == Dec(t) IN d.r = "ok" => /\ d.n = Count(d.args) /\ (d.type \in {EVENT, BINEVENT} => d.name # <<>>)
                                         /\ LET e == Dec(Enc([d EXCEPT !.args = Num(d.args)], <<>>)) IN e.r = "ok" /\ e.name = d.name /\ Len(e.args) = Len(d.args)
=============================================================================
