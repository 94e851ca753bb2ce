------------------------------- MODULE Client -------------------------------
(* What a client asks of a gateway on behalf of a cluster object, and what it tells its user (C25). *)
EXTENDS Integers, Sequences, FiniteSets
(* the documented error for each kind of refusal *)
ErrorOf(st) == CASE st = 0 -> "Network" [] st \in {404, 422} -> "ValueError" [] st = 409 -> "ClusterError" [] st = 500 -> "ServerError" [] OTHER -> "HTTP"
Speaks(st) == st \in {404, 409, 422, 500}          \* errors that carry the server's message
Refusal(st) == st = 0 \/ st >= 400
Dead == {"FAILED", "STOPPED"}
(* what a start comes to, given the last answer to it *)
StartOf(verb, st, phase) == IF Refusal(st) THEN ErrorOf(st) ELSE IF verb = "get" /\ phase \in Dead THEN "ClusterError" ELSE IF verb = "get" /\ phase = "RUNNING" THEN "ok" ELSE "more"
(* who decides whether a cluster is stopped: the first that closes the object; a request to stop it always counts *)
Decide(old, shut, own) == IF old = "yes" \/ shut = "yes" THEN "yes" ELSE IF old # "open" THEN old
                          ELSE IF shut = "no" THEN "no" ELSE IF own THEN "yes" ELSE "no"
(* reports *)
SchedulerOf(phase, proxy, name) == IF phase = "RUNNING" THEN "gateway://" \o proxy \o "/" \o name ELSE "none"
DashboardOf(route, public) == IF route = "" THEN "none" ELSE public \o route
PollPause == 500
=============================================================================
