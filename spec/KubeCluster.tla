----------------------------- MODULE KubeCluster -----------------------------
(* The life of a cluster resource: phases, and what has to be true when one is entered. *)
EXTENDS Integers, FiniteSets
Over == {"Stopped", "Failed"}
Phases == {"none", "Pending", "Running"} \cup Over
(* the only ways on; writing the same phase again is harmless *)
MayMove(old, new) ==
  \/ old \in {"none", "Pending"} /\ new \in {"Pending", "Running"} \cup Over
  \/ old = "Running" /\ new \in {"Running"} \cup Over
  \/ old \in Over /\ new \in Over
(* made: kinds of objects that were made; up: the scheduler pod was seen running *)
MayRun(up, made) == up /\ {"service", "route", "tcproute"} \subseteq made
MayStop(deactivated) == deactivated
MayFail(schedDead) == schedDead
CleanedUp(sched, secret) == sched \in {"none", "going", "gone"} /\ secret \in {"none", "going", "gone"}
MayTearDown(deactivated, schedDead) == deactivated \/ schedDead
MayDrop(phase, ended, now, age) == phase \in Over /\ now - ended >= age
(* nothing changes any more *)
Due(active, sched, ready, phase) ==
  IF phase \in Over THEN phase
  ELSE IF ~active THEN "Stopped"
  ELSE IF sched \in {"done", "gone"} THEN "Failed"
  ELSE IF sched = "running" /\ ready THEN "Running"
  ELSE phase
=============================================================================
