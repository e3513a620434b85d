------------------------------ MODULE Hostile ------------------------------
(* What well-behaved clients ("victims") experience while others attack the server. What attackers do appears nowhere   *)
(* in the actions below but in Attack, and Attack leaves everything as it was: that is the property.                     *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES
  due,     \* what victims must still experience: [v |-> session, tok |-> token, nsp |-> namespace, stage |-> "half" | "run" | "ack" | "emit"]
  mine,    \* tokens of victims, whatever became of them
  said     \* <<session, token>> of attackers, none of which has to come to anything
hvars == <<due, mine, said>>
HInit == due = {} /\ mine = {} /\ said = {}
Rec(v, tok, nsp, stage) == [v |-> v, tok |-> tok, nsp |-> nsp, stage |-> stage]
(* a victim sends an event that asks for its echo, or all of it but the last frame *)
VSend(v, tok, nsp, half) == /\ due' = due \cup {Rec(v, tok, nsp, IF half THEN "half" ELSE "run")} /\ mine' = mine \cup {tok} /\ UNCHANGED said
(* the last frame of it *)
VWhole(v) == /\ due' = {IF r.v = v /\ r.stage = "half" THEN [r EXCEPT !.stage = "run"] ELSE r : r \in due} /\ UNCHANGED <<mine, said>>
(* the application sends an event to a victim *)
VEmit(v, tok, nsp) == due' = due \cup {Rec(v, tok, nsp, "emit")} /\ mine' = mine \cup {tok} /\ UNCHANGED said
ASend(s, tok) == said' = said \cup {<<s, tok, "run">>, <<s, tok, "ack">>} /\ UNCHANGED <<due, mine>>
(* a handler runs: for a victim, what the victim sent, in its namespace, once; for anybody else, nothing but its own, once *)
Ran(s, victim, nsp, tok) ==
  IF victim THEN /\ Rec(s, tok, nsp, "run") \in due
                 /\ due' = (due \ {Rec(s, tok, nsp, "run")}) \cup {Rec(s, tok, nsp, "ack")} /\ UNCHANGED <<mine, said>>
  ELSE (tok = 0 /\ UNCHANGED hvars) \/ (<<s, tok, "run">> \in said /\ said' = said \ {<<s, tok, "run">>} /\ UNCHANGED <<due, mine>>)
(* something reaches a client *)
Got(s, victim, what, nsp, tok) ==
  IF victim THEN /\ what \in {"ack", "emit"} /\ Rec(s, tok, nsp, what) \in due
                 /\ due' = due \ {Rec(s, tok, nsp, what)} /\ UNCHANGED <<mine, said>>
  ELSE (tok = 0 /\ UNCHANGED hvars) \/ (<<s, tok, what>> \in said /\ said' = said \ {<<s, tok, what>>} /\ UNCHANGED <<due, mine>>)
(* a moment at which everything must have come *)
Rest(v) == (\A r \in due : r.v = v => r.stage = "half") /\ UNCHANGED hvars
(* whatever an attacker does; mb: megabytes the server asked for on its account *)
Attack(mb, limit) == mb <= limit /\ UNCHANGED hvars
=============================================================================
