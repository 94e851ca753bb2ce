---------------------------- MODULE AccessRules ----------------------------
(* Who may do what through the HTTP API.                                      *)
EXTENDS Integers, Sequences, FiniteSets

Nobody == "<nobody>"
Open == {"health", "version"}
OfUser == {"options", "list", "create", "get", "scale", "adapt"}    \* authenticated users
OfBoth == {"delete"}                                                 \* users, or the cluster itself
OfCluster == {"heartbeat"}                                           \* the cluster itself
OfProxy == {"routes"}                                                \* proxy processes
OnCluster == {"get", "delete", "scale", "adapt", "heartbeat"}        \* requests that name a cluster

(* Outcome of request e on cluster k by a caller that is user `who` (or Nobody) and holds the
   token of cluster `tok` (or "-"); `owner` maps the existing clusters to their users.      *)
Outcome(e, k, who, tok, owner) ==
  IF e \in Open THEN "done"
  ELSE IF e \in OfProxy THEN IF tok = "<proxy>" THEN "done" ELSE "denied"
  ELSE IF e \in OfBoth \cup OfCluster /\ k \in DOMAIN owner /\ tok = k THEN "done"
  ELSE IF e \in OfCluster \/ who = Nobody THEN "denied"
  ELSE IF e \in OnCluster THEN
         IF k \notin DOMAIN owner THEN IF e = "delete" THEN "nothing" ELSE "missing"
         ELSE IF owner[k] = who THEN "done" ELSE "forbidden"
  ELSE "done"

\* clusters a request with that outcome may change
MayTouch(e, k, outcome) == IF outcome = "done" /\ e \in {"delete", "scale", "adapt", "heartbeat"} THEN {k} ELSE {}
=============================================================================
