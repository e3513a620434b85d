----------------------------- MODULE HostileMC -----------------------------
(* A server that keeps a decoder and a worker for every session, besieged. What it does is what Hostile allows, however  *)
(* attackers proceed; variants that share decoders or workers, recycle decoders, lose track of whose packet it is, or    *)
(* die of junk are refuted.                                                                                             *)
EXTENDS Hostile, TLC
CONSTANTS Defect, MaxFrames
VARIABLES open, dec, pool, in, alive, stuck, bad, left
vars == <<due, mine, said, open, dec, pool, in, alive, stuck, bad, left>>
V == 101
A == {1001, 2002}
S == A \cup {V}
Tok(s, k) == s * 10 + k
Home(s) == IF Defect = "shareddecoder" THEN V ELSE s
Init == HInit /\ open = {V} /\ dec = [s \in S |-> 0] /\ pool = 0 /\ in = [s \in S |-> <<>>] /\ alive = TRUE /\ stuck = {} /\ bad = FALSE /\ left = MaxFrames
Spend == left > 0 /\ left' = left - 1
Push(s, f) == in' = [in EXCEPT ![s] = Append(@, f)]
(* the victim *)
VEvent == Spend /\ (\A r \in due : r.stage # "half") /\ Push(V, <<"evt", Tok(V, left)>>) /\ VSend(V, Tok(V, left), "/", FALSE) /\ UNCHANGED <<open, dec, pool, alive, stuck, bad>>
VHalf == Spend /\ (\A r \in due : r.stage # "half") /\ Push(V, <<"half", Tok(V, left)>>) /\ VSend(V, Tok(V, left), "/", TRUE) /\ UNCHANGED <<open, dec, pool, alive, stuck, bad>>
VRest == (\E r \in due : r.stage = "half") /\ Push(V, <<"att", 0>>) /\ VWhole(V) /\ UNCHANGED <<open, dec, pool, alive, stuck, bad, left>>
(* attackers *)
AOpen(s) == s \notin open /\ open' = open \cup {s} /\ dec' = [dec EXCEPT ![s] = pool] /\ pool' = 0 /\ UNCHANGED <<due, mine, said, in, alive, stuck, bad, left>>
ADrop(s) == /\ s \in open /\ open' = open \ {s} /\ in' = [in EXCEPT ![s] = <<>>] /\ dec' = [dec EXCEPT ![s] = 0]
            /\ pool' = (IF Defect = "recycle" THEN dec[s] ELSE 0) /\ stuck' = stuck \ {s} /\ UNCHANGED <<due, mine, said, alive, bad, left>>
ASay(s) == /\ s \in open /\ Spend
           /\ \/ \E k \in {"evt", "half"} : Push(s, <<k, Tok(s, left)>>) /\ ASend(s, Tok(s, left))
              \/ \E k \in {"att", "junk", "slow"} : Push(s, <<k, 0>>) /\ UNCHANGED hvars
           /\ UNCHANGED <<open, dec, pool, alive, stuck, bad>>
(* the server *)
Run(s, tok) == IF Defect = "anysession" /\ s # V /\ (\E r \in due : r.stage = "run") THEN bad' = TRUE /\ UNCHANGED hvars
               ELSE IF s = V THEN IF Rec(s, tok, "/", "run") \in due
                                  THEN due' = due \ {Rec(s, tok, "/", "run")} /\ UNCHANGED <<mine, said, bad>>      \* run and answered
                                  ELSE bad' = TRUE /\ UNCHANGED hvars
               ELSE IF <<s, tok, "run">> \in said THEN said' = said \ {<<s, tok, "run">>} /\ UNCHANGED <<due, mine, bad>>
               ELSE bad' = TRUE /\ UNCHANGED hvars
CanTake(s) == alive /\ s \in open /\ in[s] # <<>> /\ (IF Defect = "sharedworker" THEN stuck = {} ELSE s \notin stuck)
Take(s) ==
  /\ CanTake(s) /\ in' = [in EXCEPT ![s] = Tail(@)] /\ UNCHANGED <<open, pool, left>>
  /\ LET f == Head(in[s])
         h == Home(s) IN
     CASE f[1] = "evt"  -> Run(s, f[2]) /\ dec' = [dec EXCEPT ![h] = 0] /\ UNCHANGED <<alive, stuck>>      \* ends whatever was half assembled
       [] f[1] = "half" -> dec' = [dec EXCEPT ![h] = f[2]] /\ UNCHANGED <<hvars, bad, alive, stuck>>
       [] f[1] = "att"  -> IF dec[h] = 0 THEN UNCHANGED <<hvars, bad, dec, alive, stuck>>                  \* reported
                           ELSE Run(s, dec[h]) /\ dec' = [dec EXCEPT ![h] = 0] /\ UNCHANGED <<alive, stuck>>
       [] f[1] = "junk" -> alive' = (Defect # "junkkills") /\ UNCHANGED <<hvars, bad, dec, stuck>>
       [] OTHER         -> stuck' = stuck \cup {s} /\ UNCHANGED <<hvars, bad, dec, alive>>                 \* its own worker only
Next == VEvent \/ VHalf \/ VRest \/ (\E s \in A : AOpen(s) \/ ADrop(s) \/ ASay(s)) \/ \E s \in S : Take(s)
Spec == Init /\ [][Next]_vars
NoHarm == ~bad /\ alive
Served == in[V] # <<>> => CanTake(V)
Delivered == in[V] = <<>> => \A r \in due : r.stage = "half"
=============================================================================
