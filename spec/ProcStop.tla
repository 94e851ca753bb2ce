------------------------------ MODULE ProcStop ------------------------------
(* Stopping a process with INT, TERM and KILL (C27), in ticks: the stopper polls, the process
   may end by itself, obeys the signals it obeys after a while, or none. *)
EXTENDS Jobs, TLC
CONSTANTS Patience, MaxLag
VARIABLES now, sent, alive, obeys, due, done
vars == <<now, sent, alive, obeys, due, done>>
\* obeys: the signals that end it; due: ticks until it ends, -1: not ending
Init == now = 0 /\ sent = <<>> /\ alive = TRUE /\ obeys \in SUBSET {1, 2, 3} /\ due = -1 /\ done = FALSE
Send == /\ ~done /\ MaySignal(sent, Order[Len(sent) + 1], now, Patience)
        /\ alive \/ sent = <<>>
        /\ sent' = Append(sent, [s |-> Order[Len(sent) + 1], t |-> now])
        /\ \E d \in 0..MaxLag : due' = IF alive /\ Len(sent) + 1 \in obeys /\ due = -1 THEN d ELSE due
        /\ UNCHANGED <<now, alive, obeys, done>>
Seen == ~done /\ sent # <<>> /\ ~alive /\ done' = TRUE /\ UNCHANGED <<now, sent, alive, obeys, due>>
GiveUp == ~done /\ Len(sent) = 3 /\ now - sent[3].t >= Patience[3] /\ done' = TRUE /\ UNCHANGED <<now, sent, alive, obeys, due>>
Limit == 2 * (Patience[1] + Patience[2] + Patience[3])
Tick == /\ now < Limit /\ now' = now + 1
        /\ IF due = 0 THEN alive' = FALSE /\ due' = -1 ELSE alive' = alive /\ due' = IF due > 0 THEN due - 1 ELSE due
        /\ UNCHANGED <<sent, obeys, done>>
Ends == alive /\ alive' = FALSE /\ UNCHANGED <<now, sent, obeys, due, done>>
Next == Send \/ Seen \/ GiveUp \/ Tick \/ Ends
Spec == Init /\ [][Next]_vars
InOrder == \A i \in DOMAIN sent : sent[i].s = Order[i] /\ (i > 1 => sent[i].t - sent[i-1].t >= Patience[i-1])
\* what obeys KILL in time is gone when the stop is over
Gone == (done /\ 3 \in obeys /\ MaxLag < Patience[3]) => ~alive
=============================================================================
