------------------------------ MODULE Headers ------------------------------
(* What the socket of a session says about headers. H[s] maps names, which ignore case (n is the name in lower case), to  *)
(* values; a request is a sequence of [n, v], of which the first of a name counts.                                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLE H
hvars == <<H>>
First(q, n) == q[CHOOSE i \in 1..Len(q) : q[i].n = n /\ \A j \in 1..i - 1 : q[j].n # n].v
Of(q) == [n \in {q[i].n : i \in 1..Len(q)} |-> First(q, n)]
Over(f, g) == [n \in DOMAIN f \cup DOMAIN g |-> IF n \in DOMAIN f THEN f[n] ELSE g[n]]
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
HInit == H = <<>>
HOpen(s, q) == s \notin DOMAIN H /\ H' = Put(H, s, Of(q))
HSet(s, n, v) == s \in DOMAIN H /\ H' = [H EXCEPT ![s] = Put(@, n, v)]
HGet(s, n, v) == s \in DOMAIN H /\ v = (IF n \in DOMAIN H[s] THEN H[s][n] ELSE "") /\ UNCHANGED H
HUpgrade(s, q) == s \in DOMAIN H /\ H' = [H EXCEPT ![s] = Over(Of(q), @)]
=============================================================================
