------------------------------- MODULE Forward -------------------------------
(* Delivering a message to a cluster's scheduler: attempts, failures, giving up.
   A request r: [k, live (the cluster was running when it was made), tries, fly (an attempt
   is on its way), won, open].                                                            *)
EXTENDS Integers, TLC, FiniteSets

NewReq(k, live) == [k |-> k, live |-> live, tries |-> 0, fly |-> FALSE, won |-> FALSE, open |-> TRUE]
Tries(max) == IF max < 1 THEN 1 ELSE max
MaySend(r, max) == r.open /\ r.live /\ ~r.fly /\ ~r.won /\ r.tries < Tries(max)
Send(r) == [r EXCEPT !.tries = @ + 1, !.fly = TRUE]
Reply(r, ok) == [r EXCEPT !.fly = FALSE, !.won = ok]
Exhausted(r, max) == r.live /\ ~r.fly /\ ~r.won /\ r.tries = Tries(max)
MayAnswer(r, max) == r.open /\ ~r.fly /\ (~r.live \/ r.won \/ Exhausted(r, max))
Succeeds(r) == r.won
\* what becomes of the cluster once the last attempt of r failed
Fail(fate) == IF fate = "up" THEN "failed" ELSE fate
=============================================================================
